from checks.X01 import NAMES, PROP as X01, u
from vt.core import line


class PROP(X01):
    id = "X02"
    mc = {"quick": [("MCXml", "MCXml_r.cfg")], "thorough": [("MCXml", "MCXml_rt.cfg")]}
    walk_len = 12
    assumptions = ("well-formed documents of elements, attributes, text with the five predefined entities, comments, processing "
                   "instructions; no document type, no CDATA section, no character references",)

    def gen(self, rng, tier):
        out = []
        ws = lambda: rng.choice(["", "", "", " ", "\n", "  \t"])
        ent = ["&lt;", "&gt;", "&amp;", "&quot;", "&apos;"]

        def value(q):
            return "".join(rng.choice(["a", "b c", "/", "=", ">", "'", '"', "\u20ac", " ", "a=b", "/>", "--", "?>", "x" * 20, "\n"] + ent)
                           for _ in range(rng.randint(0, 4))).replace(q, "")

        def text():
            return "".join(rng.choice(["a", "word", " ", "\n", ">", "'", '"', "=", "/", "\u00e4", "it's", "a > b", "   ", "\t"] + ent)
                           for _ in range(rng.randint(0, 5)))

        def comment():
            c = "".join(rng.choice(["a", " ", "<", ">", "'", '"', "&", "<a>", "</a>", "- ", "->", "it's"]) for _ in range(rng.randint(0, 5)))
            return "<!--" + c.replace("--", "-") + (" " if c.endswith("-") else "") + "-->"

        def element(depth):
            n = rng.choice(NAMES)
            t = "<" + n
            for a in rng.sample(NAMES, rng.choice([0, 0, 1, 2, 3])):
                q = rng.choice("'\"")
                t += rng.choice([" ", " ", "\n", "  "]) + a + ws() + "=" + ws() + q + value(q) + q
            t += ws()
            if rng.random() < .25:
                return t + "/>"
            t += ">"
            for _ in range(rng.choice([0, 1, 2, 3]) if depth < 4 else 0):
                t += text() if rng.random() < .6 else ""
                t += comment() if rng.random() < .15 else ""
                t += "<?t x y?>" if rng.random() < .05 else ""
                t += element(depth + 1) if rng.random() < .6 else ""
            return t + text() + "</" + n + ws() + ">"
        docs = []
        for _ in range(250 if tier == "quick" else 10000):
            d = rng.choice(["", '<?xml version="1.0" encoding="UTF-8"?>', "<?xml version='1.0'?>\n", "\n ", '<?xml version="1.0"?><!-- c -->'])
            d += element(0) + rng.choice(["", "\n", " <!-- x -->"])
            if len(d) < 1500:
                docs.append(d)
        for i in range(0, len(docs), 5):
            s = ["new"]
            for d in docs[i: i + 5]:
                s.append(line("parse", u(d)))
                # damaged: it need not be understood
                for _ in range(2):
                    e = list(d)
                    for _ in range(rng.randint(1, 4)):
                        if e:
                            k = rng.randrange(len(e))
                            if rng.random() < .4:
                                del e[k:k + rng.randint(1, 10)]
                            else:
                                e[k] = rng.choice("<>&;'\"/=!-? a")
                    s.append(line("junk", u("".join(e))))
            t = []
            for m in rng.sample(NAMES, rng.randint(1, 4)):
                e = rng.choice([0, 8, -8, 4, 1, -1, rng.randint(-80000, 80000)])
                v, num = rng.choice([("%d" % rng.choice([0, -1, 10**18, -10**17, rng.randint(-10**6, 10**6)]), 0),
                                     (rng.choice(["true", "TRUE", "True", "false", "tru", "truex", "1x", "yes", "a1", "5a", "-5x", "0"]), 0),
                                     ("%.10g" % (e / 8), 1), ("%.10g" % (e / 8), 1), (str(e), 0)])
                t.append([u(m), u(v), num, e])
            s.append(line("typed", t))
            out.append(s)
        return out
