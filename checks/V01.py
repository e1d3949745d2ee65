from vt.core import Prop, line

EDITORS = ["textfield", "number", "checkbox", "file", "combobox", "value", "dwgcolour", "dwglayer", "unknown", ""]
WHOLES = [[0, 0, 0], [0, 0, 1], [0, 0, 256], [0, 0, 257], [-1, 2**30 - 1, 2**30 - 1], [0, 4, 0], [0, 4, 1], [7, 2**30 - 1, 2**30 - 1], [-8, 0, 0], [-1, 0, 0], [0, 0, 2**30 - 1]]


def t(s):
    return [ord(c) for c in s]


class PROP(Prop):
    id = "V01"
    driver = "props"
    trace_module = "PropsTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCProps", "MCProps_q.cfg"), ("MCProps", "MCProps_v.cfg")],
          "thorough": [("MCProps", "MCProps_t.cfg"), ("MCProps", "MCProps_v.cfg")]}
    walk_len = 200
    assumptions = ("the number of a property is read and compared in the representation it was set in; equality of properties is specified "
                   "where the values have the kind the editor asks for",)

    def walk_scenario(self, ops, module):
        out = []
        for l in super().walk_scenario(ops, module):
            if l.startswith("both "):
                out += ["make 1 " + l[5:], "make 2 " + l[5:]]
            else:
                out.append(l)
        return out

    def gen(self, rng, tier):
        out = []
        texts = ["", "a", "b", "mm", "cm", "a\u00e4\u20ac", "A"]
        for _ in range(150 if tier == "quick" else 4000):
            s = ["new"]
            T = lambda: t(rng.choice(texts))
            d = lambda: [T(), T(), T(), T(), t(rng.choice(EDITORS)), rng.randrange(2), rng.randrange(3), rng.randrange(2)]
            base = d()
            for i in (1, 2, 3):
                if rng.random() < .7:
                    s.append(line("make", i, base if rng.random() < .8 else d()))
                else:
                    s.append(rng.choice([line("short", i, d()[:5]), line("named", i, T())]))
            few = rng.sample(WHOLES, 2)
            reals = rng.sample([0, 1, 4, -4, 10, 1000000, 4096], 2)
            tt = [T(), T()]
            kinds = rng.choice([["text"], ["whole"], ["real"], ["truth"], ["unit"], ["text", "whole", "real", "truth", "unit"], ["truth", "whole"], ["unit", "text"]])
            for _ in range(40):
                i, j = rng.randint(1, 3), rng.randint(1, 3)
                k = rng.choice(kinds)
                x = rng.random()
                if x < .45:
                    s.append({"text": line("text", i, rng.choice(tt)), "whole": line("whole", i, rng.choice(few)), "real": line("real", i, rng.choice(reals)),
                              "truth": line("truth", i, rng.randrange(2)), "unit": line("unit", i, rng.choice(reals), rng.choice(tt))}[k])
                elif x < .55:
                    s.append(line("take", i, j))
                elif x < .6:
                    s.append(line("assign", i, j))
                elif x < .62:
                    s.append(line("kind", i, rng.randrange(8)))
                elif x < .64:
                    s.append(line("icon", i, T()))
                elif x < .66:
                    s.append(line("is", i, rng.choice([T(), base[0]])))
                elif x < .8:
                    s.append(rng.choice([line("vwhole", rng.randint(1, 2), rng.choice(WHOLES)), line("vreal", rng.randint(1, 2), rng.choice(reals)),
                                         line("vtext", rng.randint(1, 2), T()), line("vassign", rng.randint(1, 2), rng.randint(1, 2)), line("vnew", rng.randint(1, 2)),
                                         line("vcopy", rng.randint(1, 2)), line("vsmall", rng.randint(1, 2))]))
                s += [line("equals", i, j), line("same", i, j)]
            out.append(s)
        return out
