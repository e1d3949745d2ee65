from vt.core import Prop, line

TEXTS = ["", "a", "<", "&", ">", "\"", "'", "&amp;", "a<b>c", "]]>", "<!--", " x ", "\n", "  ", "x\n  y", "\u00e4\u20ac", "'\"", "a&b;c", "<?x?>", "=/", "&&&", "\t"]
NAMES = ["a", "b", "item", "x:y", "a-b.c", "n1", "\u00e4"]


def u(s):
    return [ord(c) for c in s]


class PROP(Prop):
    id = "X01"
    driver = "xml"
    trace_module = "XmlTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCXml", "MCXml_w.cfg")], "thorough": [("MCXml", "MCXml_wt.cfg")]}
    walk_len = 150
    assumptions = ("names are XML names, the texts hold no control characters besides line breaks and tabs, attributes of an element "
                   "have different names; characters up to U+FFFF",)

    def walk_scenario(self, ops, module):
        s = super().walk_scenario(ops, module)
        return s

    def gen(self, rng, tier):
        out = []
        for _ in range(60 if tier == "quick" else 2500):
            s = ["new"]
            for _ in range(rng.choice([1, 3])):
                stack = []
                n = rng.choice([5, 20, 60])
                root = False
                while True:
                    if len(s) > 400 or n <= 0:
                        s += ["end"] * len(stack) + ["finish"]
                        break
                    n -= 1
                    if not stack:
                        if root:
                            n = 0
                            continue
                        if rng.random() < .3:
                            s.append("indent")
                        root = True
                        s.append(line("start", u(rng.choice(NAMES))))
                        stack.append(["", set(), ""])
                        continue
                    top = stack[-1]
                    fresh = s[-1].split()[0] in ("start", "attr")
                    op = "attr" if fresh and rng.random() < .5 else rng.choice(["start", "start", "attr", "attr", "text", "raw", "base64", "indent", "unindent", "end", "end"])
                    if op == "start":
                        if len(stack) > 6:
                            continue
                        s.append(line("start", u(rng.choice(NAMES))))
                        top[0] = top[0] or "c"
                        stack.append(["", set(), ""])
                    elif op == "attr":
                        m = rng.choice(NAMES)
                        if m in top[1]:
                            continue
                        top[1].add(m)
                        k = rng.choice(["s", "s", "i32", "u32", "i64", "u64", "d", "f"])
                        if k == "s":
                            v = rng.choice(TEXTS) + rng.choice(TEXTS)
                        elif k == "d":
                            v = "%.10g" % rng.choice([0, 1, -1, 0.5, 123456.789, 1e300, 1e-7, 1e10, 12345678901e5,
                                                      float("%.9g" % rng.uniform(-1e6, 1e6))])
                        elif k == "f":
                            v = "%.10g" % (rng.randint(-800000, 800000) / 8)
                        else:
                            bits = int(k[1:])
                            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if k[0] == "i" else (0, (1 << bits) - 1)
                            v = str(rng.choice([lo, hi, hi // 2 + 1, 0, max(lo, -1), rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(0, 99)]))
                        s.append(line("attr", u(m), u(v), k))
                    elif op == "text":
                        s.append(line("text", u("".join(rng.choice(TEXTS) for _ in range(rng.choice([1, 1, 4]))))))
                        top[0] = top[2] = "t"
                    elif op == "raw":
                        s.append(line("raw", u(rng.choice(["", "x", "&lt;&amp;&gt;", "&quot;&apos;", "a b", "'\"", "\n"]))))
                        top[0] = top[2] = "t"
                    elif op == "base64":
                        if top[0] and not top[2]:
                            continue
                        s.append(line("base64", [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 10, 50]))]))
                        top[0] = top[2] = "t"
                    elif op in ("indent", "unindent"):
                        s.append(op)
                        top[0] = top[0] or "c"
                    else:
                        s.append("end")
                        stack.pop()
            out.append(s)
        return out
