from vt.core import Prop, line


class PROP(Prop):
    id = "G04"
    driver = "spline"
    trace_module = "SplineTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCSpline", "MCSpline_q.cfg")], "thorough": [("MCSpline", "MCSpline_t.cfg")]}
    walk_len = 300
    assumptions = ("curves of degree one to three that begin and end at their outermost control points; points are compared to a hundredth",)

    def gen(self, rng, tier):
        out = []
        for _ in range(24 if tier == "quick" else 500):
            s = ["new"]
            for _ in range(8):
                k = rng.randint(1, 3)
                n = rng.randint(k + 1, k + 6)
                end = rng.randint(1, 4)
                inside = sorted(rng.randint(1, end - 1) for _ in range(n - k - 1)) if end > 1 else []
                inside = [x for i, x in enumerate(inside) if inside[:i].count(x) < k]
                n = k + 1 + len(inside)
                low = rng.choice([0, 0, 1, -2])
                u = [x + low for x in [0] * (k + 1) + inside + [end] * (k + 1)]
                w = [1] * n if rng.random() < .3 else [rng.randint(1, 3) for _ in range(n)]
                s += [line("curve", k, [[rng.randint(-9, 9) for _ in range(3)] for _ in range(n)], w, u), "facts", "ends"]
                b = rng.choice([1, 2, 4])
                s += [line("at", a, b) for a in range(low * b, (low + end) * b + 1)]
                if rng.random() < .3:
                    s.append("noCurve")
            out.append(s)
        return out
