from vt.core import Prop, line


class PROP(Prop):
    id = "K01"
    driver = "color"
    trace_module = "ColorTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCColor", "MCColor_q.cfg")], "thorough": [("MCColor", "MCColor_t.cfg")]}
    walk_len = 250
    assumptions = ("the components of a colour are set and blended in the mode they belong to",)

    def gen(self, rng, tier):
        out = []
        by = lambda: rng.choice([0, 1, 2, 127, 128, 254, 255, rng.randrange(256), rng.randrange(256), rng.randrange(256)])
        for _ in range(60 if tier == "quick" else 1500):
            s = ["new"]
            for _ in range(30):
                m = rng.choice([0, 1, 1, 1, 1, 2])
                q = [by() for _ in range((1, 3, 4)[m])]
                if m == 1 and rng.random() < .2:
                    q = [q[0]] * 3
                al = rng.choice([255, 255, by()])
                s.append(line("a", m, q, al))
                if rng.random() < .3:
                    s += [line("part", rng.randint(1, len(q)), by())]
                if rng.random() < .2:
                    s += [line("alpha", by())]
                if m == 1:
                    s += [line("b", 1, [by(), by(), by()], rng.choice([255, by(), by(), 0, 1, 2]))]
                    s += [line("blend", by()), line("mix", rng.randint(0, 8))]
                    s += [rng.choice(["plus", "minus"])]
                elif rng.random() < .5:
                    s += [line("b", m, [by() for _ in q], by()), rng.choice(["plus", "minus"])]
                s += ["same", "white", "hsv", "viahsv"]
                s += rng.sample(["rgb", "grey", "cmyk", "hsv", "viahsv", "white", "copy"], 5) + ["same"]
                s += [line("fromhsv", rng.choice([0, 60, 120, 300, 359, 360, rng.randint(0, 360)]), rng.choice([0, 100, rng.randint(0, 100)]), rng.choice([0, 100, rng.randint(0, 100)]), rng.choice([0, 100, rng.randint(0, 100)]))]
            out.append(s)
        return out
