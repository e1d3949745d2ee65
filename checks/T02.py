from checks.T01 import PROP as T01, number, DAY
from vt.core import line, op_line


class PROP(T01):
    id = "T02"
    mc = {"quick": [("MCDates", "MCDates_f.cfg")], "thorough": [("MCDates", "MCDates_ft.cfg")]}
    walk_len = 100
    assumptions = ("years from 0 to 9999; letters of a pattern that the documentation announces but the library does not "
                   "evaluate yet (D, w, W, F, a, K, h, k, z) are not used outside texts",)

    def walk_scenario(self, ops, module):
        import zlib
        h = zlib.crc32(repr(ops).encode())
        return ["new", line("set", h % 1000000 - 300000, (h * 7919) % DAY)] + [op_line(o) for o in ops]

    def gen(self, rng, tier):
        out = []
        letters = "yMdEHmsS"
        for y in [0, 5, 99, 1900, 1969, 1970, 1999, 2000, 2005, 2024, 9999] + [rng.randint(0, 9999) for _ in range(9 if tier == "quick" else 400)]:
            for m in range(12):
                s = ["new", line("set", number(y, m, 1) + rng.randrange(28), rng.choice([0, 1, 9, 10, 99, 100, 3599999, 3600000, 35999999, 36000000, DAY - 1, rng.randrange(DAY)]))]
                s.append(line("text"))
                for c in letters:
                    s += [line("format", [ord(c)] * n) for n in (1, 2, 3, 4, 5)]
                for _ in range(12):
                    p = ""
                    for _ in range(rng.randint(1, 8)):
                        k = rng.random()
                        if k < .55:
                            p += rng.choice(letters) * rng.choice([1, 2, 2, 3, 4])
                        elif k < .8:
                            p += rng.choice([".", ":", " ", "-", "/", ", ", "..", "T", "Z", "00"])
                        elif k < .95:
                            p += "'" + rng.choice(["", "T", "d", "Uhr", "dd.MM", "w"]) + "'"
                        else:
                            p += "'"
                    if not any(c in "wWDFaKhkz" for i, c in enumerate(p) if p[:i].count("'") % 2 == 0):
                        s.append(line("format", [ord(c) for c in p]))
                for d in range(7):
                    s += [line("set", number(y, m, 1) + d, 0), line("format", [69]), line("format", [69, 69]), line("format", [69] * 4)]
                out.append(s)
        return out
