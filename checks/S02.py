from checks.str_common import ALPHA, StrProp
from vt.core import line


class PROP(StrProp):
    id = "S02"
    trace_cfg = "StrTrace_text.cfg"
    mc = {"quick": [("MCText", "MCText_q.cfg")], "thorough": [("MCText", "MCText_t.cfg")]}
    walk_len = 200
    assumptions = ("searching for the empty text and searching backwards from outside the text are not specified",)

    def gen(self, rng, tier):
        out = []
        # every character of the first pages, and some of every other page
        for lo in list(range(0, 1024, 64)) + list(range(1024, 65536, 64 * (16 if tier == "quick" else 1))):
            out.append(["new", line("chars", 1, lo, lo + 63)])
        ed = [0, 1, 64, 65, 90, 97, 122, 127, 128, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff]
        out.append(["new"] + [line("charcmp", 1, x, y) for x in ed for y in ed])
        for _ in range(250 if tier == "quick" else 4000):
            alpha = rng.choice([[97, 98], [97, 98, 32], ALPHA[:9] + [46], [97, 65, 228, 196], [48, 49, 57, 97, 46],
                                ALPHA])
            s = ["new"]
            for _ in range(rng.choice([2, 4])):
                t = self.text(rng, alpha=alpha)
                if rng.random() < 0.3:
                    ws = [32, 9, 10, 13, 8, 12]
                    t = [rng.choice(ws) for _ in range(rng.randint(0, 3))] + t + \
                        [rng.choice(ws) for _ in range(rng.randint(0, 3))]
                # something that occurs in it, or nearly so
                i = rng.randint(0, len(t))
                u = t[i:i + rng.choice([1, 1, 2, 3, 20])] or [rng.choice(alpha)]
                if rng.random() < 0.3:
                    u = u + [rng.choice(alpha)]
                if rng.random() < 0.2:
                    u = [c ^ 32 if (c | 32) in range(97, 123) or c in (228, 196, 252, 220) else c for c in u]
                s += [self.lit(rng, 1, t), self.lit(rng, 2, u), self.lit(rng, 3, self.text(rng, rng.randint(0, 4)))]
                n = len(t)
                c = rng.choice(t or alpha)
                for p in {-1, 0, 1, n - 1, n, n + 1, i, i + 1, rng.randint(0, n)}:
                    s += [line("idxs", 1, 2, p), line("lidxs", 1, 2, p), line("idxc", 1, c, p)]
                    if p >= 0:
                        s.append(line("at", 1, p, 2))
                    if 0 <= p < n:
                        s.append(line("lidxcf", 1, c, p))
                s += [line("lidxc", 1, c), line("starts", 1, 2), line("starts", 1, 1), line("count", 1, c),
                      line("split", 1, c), line("split", 1, 44), line("units", 1), line("size", 1),
                      line("repls", 4, 1, 2, 3), line("starts", 4, 3), line("replc", 4, 1, c, rng.choice(alpha)),
                      line("trim", 4, 1), line("reverse", 4, 1), line("lower", 4, 1), line("upper", 4, 1),
                      line("starts", 4, 2), line("repls", 4, 1, 3, 2), line("tail", 4, 1, i), line("starts", 4, 2),
                      # a shortened text must not find what stood behind its end
                      line("copy", 4, 1), line("deleter", 4, i, 500), line("idxs", 4, 2, 0), line("lidxs", 4, 2, n),
                      line("starts", 4, 2)]
            out.append(s)
        for _ in range(2 if tier == "quick" else 10):
            t = self.vast(rng)
            n = len(t)
            u = [120] * rng.randint(1, 3)
            at = rng.choice([65535, 65536, n - 3 - len(u), n])
            t = t[:at] + u + t[at:]
            ws = [32] * rng.choice([3, 65537])
            s = ["new", self.lit(rng, 1, t), line("lit", 2, u), line("idxs", 1, 2, 0), line("idxs", 1, 2, at + 1),
                 line("lidxs", 1, 2, len(t)), line("lidxs", 1, 2, at), line("idxc", 1, 120, at - 1), line("lidxc", 1, 120),
                 line("lidxcf", 1, 120, at), line("at", 1, at, 2), line("starts", 1, 2), line("starts", 1, 1),
                 line("count", 1, 97), line("units", 1), line("split", 1, 120), line("tail", 3, 1, at - 5),
                 line("lit", 3, [121, 121]), line("repls", 1, 1, 2, 3), line("size", 1),
                 line("lit", 2, ws + [46] + ws), line("trim", 3, 2), line("lower", 1, 1)]
            out.append(s)
        return out
