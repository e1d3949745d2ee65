from vt.core import Prop, line


class PROP(Prop):
    id = "M01"
    driver = "conc"
    flavour = "sched"
    trace_module = "PoolTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCPool", "MCPool_run.cfg"), ("MCPool", "MCPool_prog.cfg")],
          "thorough": [("MCPool", "MCPool_runt.cfg"), ("MCPool", "MCPool_progt.cfg")]}
    walk_len = 8
    assumptions = ("sequentially consistent memory: another thread is scheduled between any two accesses, but the hardware does not reorder "
                   "them; a thread gives up only references it holds",)

    def gen(self, rng, tier):
        out = []
        for _ in range(60 if tier == "quick" else 1500):
            no, nt = rng.choice([(1, 2), (1, 3), (2, 2), (2, 3), (1, 4)])
            refs = [[rng.choice([0, 1, 1, 2]) if t else rng.choice([0, 0, 1]) for t in range(nt)] for _ in range(no)]
            for r in refs:
                if sum(r) == 0:
                    r[1] = 1
            progs = []
            for t in range(nt):
                hold = [r[t] for r in refs]
                p = []
                for _ in range(rng.randint(0, 4 if nt < 3 else 3)):
                    c = rng.choice(["retain", "release", "release", "auto", "auto", "flag", "drain"])
                    os = [o for o in range(no) if hold[o] > 0]
                    if c == "drain" or not os:
                        p.append(["drain"])
                        continue
                    o = rng.choice(os)
                    hold[o] += {"retain": 1, "release": -1, "auto": -1, "flag": 0}[c]
                    p.append([c, o + 1])
                progs.append(p)
            out.append(["new", line("pool", refs, progs, rng.choice([1, 2, 3]), 400 if tier == "quick" else 3000)])
        return out
