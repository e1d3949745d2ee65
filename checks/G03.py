from vt.core import Prop, line


class PROP(Prop):
    id = "G03"
    driver = "plane"
    trace_module = "PlaneTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCPlane", "MCPlane_rq.cfg"), ("MCPlane", "MCPlane_bq.cfg")],
          "thorough": [("MCPlane", "MCPlane_rt.cfg"), ("MCPlane", "MCPlane_bt.cfg")]}
    walk_len = 250
    assumptions = ("coordinates are whole numbers small enough to be exact",)

    def gen(self, rng, tier):
        out = []
        for _ in range(40 if tier == "quick" else 1000):
            z = lambda: rng.choice([0, 0, 1, -1, rng.randint(-9, 9), rng.randint(-5000, 5000)])
            w = lambda: rng.choice([0, 1, 2, rng.randint(0, 9), rng.randint(0, 5000)])
            s = ["new"]
            for _ in range(25):
                a, b = [z(), z(), w(), w()], [z(), z(), w(), w()]
                s += [line("rect", *a), line("other", *b), "relation", "points", "empty"]
                s += [line("contains", z(), z()), line("contains", a[0] + a[2], a[1]), line("contains", a[0], a[1] + a[3] + 1)]
                if max(a[0], b[0]) <= min(a[0] + a[2], b[0] + b[2]) and max(a[1], b[1]) <= min(a[1] + a[3], b[1] + b[3]):
                    s += ["intersect"] if rng.random() < .5 else ["swap", "intersect"]
                if rng.random() < .5:
                    s += ["unite"]
                for _ in range(4):
                    s.append(rng.choice([line(rng.choice(["top", "left", "right", "bottom", "shiftTop", "shiftLeft", "shiftRight", "shiftBottom"]), z()),
                                         line("move", z(), z()), line("at", z(), z()), line("size", z(), z()), "normalize", "swap",
                                         "alignTopLeft", "alignBottomLeft"]))
                s += ["points", "empty", "normalize", "points"]
                s += [line("pair", [z(), z()], [z(), z()], z())]
                for _ in range(5):
                    s += [rng.choice([line("add2", z(), z()), line("add3", z(), z(), z()), "addBox", "swapBoxes"]), "box"]
                if rng.random() < .3:
                    s += ["new"]
            out.append(s)
        return out
