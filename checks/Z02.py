import os
from vt.core import Prop, line
from vt import deflate as df


class PROP(Prop):
    id = "Z02"
    driver = "deflate"
    trace_module = "DeflateTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCDeflate", "MCDeflate_q.cfg")], "thorough": [("MCDeflate", "MCDeflate_t.cfg")]}
    walk_limit = 40
    walk_len = 40
    assumptions = ("the compression itself is zlib's; the specification checks what it wrote",)

    def event(self, ev):
        if ev["op"] == "deflate":
            try:
                ev["t"] = df.parse(ev["r"][0])[0]
            except (df.Bad, LookupError):
                ev["t"] = [["type3", 1]]
        return ev

    def gen(self, rng, tier):
        out = []
        texts = [b"", b"a", b"ab" * 600, b"abc", bytes(range(256)), b"\0" * 1000, b"\xff" * 3]
        here = os.path.dirname(os.path.abspath(__file__))
        texts.append(open(os.path.join(here, "Z02.py"), "rb").read()[:1500])
        s = ["new"] + [line("deflate", list(t), k % 3) for k, t in enumerate(texts)]
        out.append(s)
        for _ in range(25 if tier == "quick" else 400):
            s = ["new"]
            for _ in range(12):
                n = rng.choice([0, 1, 2, 3, 8, 20, 100, 500])
                a = rng.choice([list(range(256)), [97], [97, 98, 99], list(range(97, 123))])
                d = [rng.choice(a) for _ in range(n)]
                if rng.random() < .4 and d:
                    for _ in range(rng.randint(1, 5)):
                        i = rng.randrange(len(d))
                        d += d[i:i + rng.randint(1, 60)]
                s.append(line("deflate", d, rng.choice([0, 1, 2, 2])))
            out.append(s)
        # beyond the window, and incompressible
        for _ in range(2 if tier == "quick" else 8):
            b = [rng.randrange(256) for _ in range(rng.choice([3000, 20000, 33000]))]
            out.append(["new", line("deflate", b, 0), line("deflate", b[:50] + [7] * 33000 + b[:50], rng.randint(1, 2))])
        return out
