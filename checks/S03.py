import re

from checks.str_common import ALPHA, StrProp
from vt.core import line


class PROP(StrProp):
    id = "S03"
    trace_cfg = "StrTrace_none.cfg"
    mc = {"quick": [("MCText", "MCText_q.cfg")], "thorough": [("MCText", "MCText_t.cfg")]}
    walk_len = 200
    assumptions = ("the natural order takes the first 256 characters, as documented",
                   "hash codes of different texts are not specified")

    def gen(self, rng, tier):
        out = []
        for _ in range(200 if tier == "quick" else 3000):
            ln = [0] * 5
            s = ["new"]
            for _ in range(rng.choice([15, 40])):
                s.append(self.edit(rng, ln))
                if rng.random() < 0.6:
                    s.append(line("hash", self.v(rng), self.v(rng), rng.randint(0, 1)))
                if rng.random() < 0.3:
                    s.append(line("eq", self.v(rng), self.v(rng)))
            out.append(s)
        for _ in range(150 if tier == "quick" else 3000):
            s = ["new"]
            for _ in range(6):
                alpha = rng.choice([[97, 98, 65, 66], ALPHA, [48, 49, 57, 97, 46], [0xd800, 0xe000, 97, 0x7f]])
                t = self.text(rng, alpha=alpha)
                u = list(t)
                if u and rng.random() < 0.7:
                    i = rng.randrange(len(u))
                    u[i] = rng.choice(alpha)
                r = rng.random()
                if r < 0.2:
                    u = u[:rng.randint(0, len(u))]
                elif r < 0.3:
                    u = [c ^ 32 if (c | 32) in range(97, 123) or c in (228, 196, 252, 220) else c for c in t]
                s += [self.lit(rng, 1, t), self.lit(rng, 2, u), self.lit(rng, 3, self.text(rng, alpha=alpha))]
                for a, b in ((1, 2), (2, 1), (1, 3), (3, 2), (1, 1)):
                    s += [line("eq", a, b), line("hash", a, b, rng.randint(0, 1))]
                # numbers inside texts
                def name():
                    return [c for _ in range(rng.randint(1, 4)) for c in
                            rng.choice([[97], [98], [46], [32], [ord(x) for x in str(rng.randint(0, 120))],
                                        [48] * rng.randint(1, 2) + [ord(x) for x in str(rng.randint(0, 99))],
                                        [ord(x) for x in str(rng.randint(0, 999999))]])]
                a, b = name(), name()
                if rng.random() < 0.6:  # the same parts, spelled in other ways, more or fewer of them
                    b = []
                    for x in re.findall(r"\d+|\D", "".join(map(chr, a))):
                        if x.isdigit() and rng.random() < 0.6:
                            x = "0" * rng.randint(0, 3) + x.lstrip("0") if x.strip("0") else "0" * rng.randint(1, 3)
                        b += [ord(c) for c in x]
                    r = rng.random()
                    if r < 0.3:
                        b += [rng.choice([97, 46, 48, 55])]
                    elif r < 0.5:
                        b = b[:-1]
                    elif r < 0.6:
                        b = b[1:]
                r = rng.random()
                if r < 0.2:  # long numbers, alike in their lower digits or not
                    n = rng.choice([2 ** 32, 2 ** 63, 2 ** 64, 10 ** rng.randint(9, 30), rng.randint(1, 10 ** 22)])
                    k = rng.choice([0, 1, 9, 2 ** 32, 2 ** 64, n, -1])
                    i = rng.randint(0, len(a))
                    a, b = a[:i] + [ord(c) for c in str(n)] + a[i:], a[:i] + [ord(c) for c in str(max(0, n + k) if
                                                                      rng.random() < 0.6 else abs(k))] + a[i:]
                elif r < 0.25:  # where the texts are cut
                    pre = [97 + i % 7 for i in range(rng.randint(248, 256))]
                    a, b = pre + a, pre + b
                s += [line("lit", 1, a), line("lit", 2, b), line("natural", 1, 2), line("natural", 2, 1),
                      line("eq", 1, 2)]
            out.append(s)
        for k in range(2 if tier == "quick" else 10):  # alike for a long time
            t = self.vast(rng)
            n = len(t)
            u = t[:n - 1] + [rng.choice([97, 98, 65])] if k % 2 else t[:rng.choice([65535, n - 65536, n - 1])]
            s = ["new", line("lit", 1, t), line("lit", 2, u)]
            for a, b in ((1, 2), (2, 1), (1, 1)):
                s += [line("eq", a, b), line("hash", a, b, rng.randint(0, 1)), line("natural", a, b)]
            out.append(s)
        return out
