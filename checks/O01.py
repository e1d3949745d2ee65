from vt.core import Prop, line


class PROP(Prop):
    id = "O01"
    driver = "own"
    trace_module = "OwnTrace"
    trace_cfg = "OwnTrace.cfg"
    mc = {"quick": [("MCOwn", "MCOwn_plain2.cfg"), ("MCOwn", "MCOwn_histq.cfg"), ("MCOwn", "MCOwn_txq.cfg"),
                    ("MCOwn", "MCOwn_big.cfg")],
          "thorough": [("MCOwn", "MCOwn_plain.cfg"), ("MCOwn", "MCOwn_hist.cfg"), ("MCOwn", "MCOwn_tx.cfg")]}
    assumptions = (
        "references are changed as the library's own undo test does it: announce the member, register the release of "
        "the old and the retain of the new referent",
        "one thread (concurrent use is the subject of M01)")

    def session(self, rng, length, hist, tx):
        s = ["new"]
        N = 8
        held = [0] * (N + 1)
        mode = rng.choice([[0], [1], [0, 1]])
        made = 0
        level = 0
        for _ in range(length):
            r = rng.random()
            mine = [o for o in range(1, N + 1) if held[o]]
            if (r < 0.2 and made < N) or not mine:
                if made == N:
                    break
                made += 1
                held[made] = 1
                s.append(line("make", made, rng.choice(mode)))
            elif r < 0.27:
                o = rng.choice(mine)
                held[o] += 1
                s.append(line("retain", o))
            elif r < 0.42:
                o = rng.choice(mine)
                held[o] -= 1
                s.append(line("release", o))
            elif r < 0.5:
                o = rng.choice(mine)
                held[o] -= 1
                s.append(line("autorelease", o))
            elif r < 0.54:
                s.append("drain")
            elif r < 0.57:
                s.append(line("high", rng.choice(mine), rng.randint(0, 1)))
            elif r < 0.75 or not hist:
                # acyclic most of the time
                o = rng.choice(mine)
                n = rng.choice([0] + mine) if rng.random() < 0.3 else rng.choice([0] + [x for x in mine if x < o])
                s.append(line("edit" if hist else "set", o, n))
            elif tx and r < 0.85:
                if level and rng.random() < 0.6:
                    level -= 1
                    s.append(rng.choice(["commit", "rollback"]))
                elif level < 3:
                    level += 1
                    s.append("begin")
            elif r < 0.9:
                s.append("close")
            elif r < 0.97:
                s += [rng.choice(["undo", "undo", "redo"])] * rng.choice([1, 2, 5])
            else:
                s.append(rng.choice(["clear", "clearu", "clearr"] + ([] if level else ["drop"])))
        while level:
            s.append(rng.choice(["commit", "rollback"]))
            level -= 1
        for o in range(1, N + 1):
            s += [line("release", o)] * held[o]
        s += ["drain", "undo", "redo", "clear", "drain"]
        return s

    def gen(self, rng, tier):
        n = 1 if tier == "quick" else 10
        return [self.session(rng, rng.choice([20, 60, 150]), h, t)
                for h, t in ((False, False), (True, False), (True, True)) for _ in range(60 * n)]
