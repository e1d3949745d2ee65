from vt.core import Prop, line


class PROP(Prop):
    id = "D01"
    driver = "diff"
    trace_module = "DiffTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCDiff", "MCDiff_q.cfg")], "thorough": [("MCDiff", "MCDiff_t.cfg")]}
    walk_len = 200
    assumptions = ("equality of the objects is an equivalence and does not change meanwhile",)

    def gen(self, rng, tier):
        out = []
        for _ in range(60 if tier == "quick" else 1500):
            s = ["new"]
            for _ in range(8):
                n = rng.choice([0, 1, 2, 3, 5, 8, 12, 20])
                k = rng.choice([1, 2, 3, 6, 30])
                u = [rng.randrange(k) for _ in range(n)]
                if rng.random() < .6:
                    v = list(u)
                    for _ in range(rng.randint(0, 6)):
                        c = rng.randrange(3)
                        i = rng.randint(0, len(v))
                        if c == 0:
                            v.insert(i, rng.randrange(k + 1))
                        elif i < len(v):
                            if c == 1:
                                del v[i]
                            else:
                                v[i] = rng.randrange(k + 1)
                else:
                    v = [rng.randrange(k) for _ in range(rng.choice([0, 1, 2, 4, 9, 15]))]
                if rng.random() < .3:
                    u, v = v, u
                s += [line("u", 101 + i, x) for i, x in enumerate(u)] + [line("v", 201 + i, x) for i, x in enumerate(v)]
                s += ["solve"] * rng.choice([1, 1, 2]) + ["clear"]
            out.append(s)
        return out
