from vt.core import Prop, line

# member kinds of drivers/undo.cpp: 18 = a member with an accepted range
SETTERS = [1, 2, 6, 9, 10, 13, 14, 18]
ALL = list(range(19))


def nvals(kind):
    return 2 if kind == 10 else 6


class UndoProp(Prop):
    driver = "undo"
    trace_module = "UndoTrace"
    tx = False
    flags = False
    assumptions = (
        "every edit of a tracked member is announced to the history before it is made, as the documentation asks",
        "the specification checker treats a member's value as opaque; the driver maps it to edge values of its type",
        "memory errors are seen through AddressSanitizer: a call that does not return refutes the behaviour")

    def __init__(self):
        self.n = 0

    def walk_scenario(self, ops, module):
        k = SETTERS[self.n % len(SETTERS)]
        self.n += 1
        return super().walk_scenario(ops, module)[1:] and [line("new", [k])] + super().walk_scenario(ops, module)[1:]

    def session(self, rng, length, kinds, p_close, p_move, p_tx):
        """A random editing session. Only the legality of calls is tracked here (open transactions)."""
        s = [line("new", kinds)]
        level = 0
        for _ in range(length):
            r = rng.random()
            if r < p_tx:
                c = rng.random()
                if level == 0 or c < 0.3:
                    if level < 4:
                        s.append("begin")
                        level += 1
                elif c < 0.75:
                    s.append("end")
                    level -= 1
                elif c < 0.82:
                    s.append("commit")
                    level -= 1
                elif c < 0.88:
                    s.append("rollback")
                    level -= 1
                else:
                    s.append(line("report", rng.choice([1, 2, 3, 4, 5])))
                continue
            r = rng.random()
            if r < p_close:
                s.append("close")
            elif r < p_close + p_move:
                for _ in range(rng.choice([1, 1, 1, 2, 3, 8])):
                    s.append(rng.choice(["undo", "undo", "redo"]))
            elif r < p_close + p_move + 0.01:
                s.append(rng.choice(["clear", "clearu", "clearr"]))
            elif self.flags and rng.random() < 0.3:
                s.append(rng.choice(["saved", line("regendone", rng.randint(0, 1)),
                                     line("regendone", rng.randint(0, 1)), line("mark", rng.randint(0, 1))]))
            else:
                slot = rng.randrange(len(kinds))
                k = kinds[slot]
                f = 2 * slot + rng.randint(0, 1)
                v = rng.randrange(nvals(k))
                if k == 18 and rng.random() < 0.5:
                    a, b = sorted([rng.randrange(6), rng.randrange(6)])
                    s.append(line("ranged", f, v, a, b))
                elif k == 9 and rng.random() < 0.15:
                    s.append(line("nan", f))
                elif k in SETTERS and rng.random() < 0.5:
                    s.append(line("member", f, v))
                else:
                    s.append(line("edit", f, v))
        while level:
            s.append(rng.choice(["end", "end", "rollback", "commit"]))
            level -= 1
        s += ["close"] + ["undo"] * rng.choice([1, 3, 40]) + ["redo"] * rng.choice([1, 3, 40])
        return s
