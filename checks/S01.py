from vt.core import line
from checks.str_common import StrProp


class PROP(StrProp):
    id = "S01"
    trace_cfg = "StrTrace_text.cfg"
    mc = {"quick": [("MCStr", "MCStr_q.cfg"), ("MCStr", "MCStr_big.cfg")], "thorough": [("MCStr", "MCStr_t.cfg")]}
    assumptions = ("upper and lower case are specified for A-Z and Ä Ö Ü, the letters the library maps",)

    def gen(self, rng, tier):
        out = []
        for _ in range(150 if tier == "quick" else 2000):
            ln = [0] * 5
            out.append(["new"] + [self.edit(rng, ln) for _ in range(rng.choice([20, 60, 150]))])
        # long texts, one character after the other over the ends of their buffers
        for n in [rng.choice([60, 125, 250, 256, 500, 508, 1020, 2040]) for _ in range(20 if tier == "quick" else 100)]:
            t = self.text(rng, n + rng.randint(0, 5), [97, 228, 8364])
            s = ["new", line("lit", 1, t), line("copy", 2, 1)]
            for k in range(20):
                s += [rng.choice([line("appendc", 1, 98), line("insertc", 1, rng.choice([0, n // 2]), 99),
                                  line("appendc", 2, 98), line("plus", 3, 2, 4), line("lit", 4, [120] * rng.randint(1, 17)),
                                  line("append", 2, 4), line("inserts", 1, rng.choice([0, n]), 4), line("sub", 3, 1, 0, n - k),
                                  line("deleter", 1, rng.randint(0, n // 2), rng.choice([1, 5, 16]))])]
            out.append(s)
        for _ in range(2 if tier == "quick" else 12):
            t = self.vast(rng)
            n = len(t)
            m = rng.randint(1, 300)
            p = rng.choice([65535, 65536, n - 1, n])
            s = [line("inserts", 1, p, 2), line("inserts", 1, 0, 2), line("insertc", 1, p, 99), line("appendc", 1, 99),
                 line("append", 1, 2), line("plus", 1, 1, 2), line("plus", 1, 2, 1), line("pluseq", 1, 2),
                 line("deletec", 1, p), line("deleter", 1, p - m, m), line("deleter", 1, 0, m), line("setc", 1, p, 99),
                 line("sub", 1, 1, 0, p), line("sub", 2, 1, p - 20, p + 20), line("tail", 2, 1, p - 5), line("get", 1, p),
                 line("size", 1), line("reverse", 1, 1), line("upper", 1, 1), line("replc", 1, 1, 98, 99)]
            rng.shuffle(s)
            out.append(["new", line("lit", 1, t[:p]), line("lit", 2, self.text(rng, m)), line("append", 1, 2)] + s[:12])
        return out
