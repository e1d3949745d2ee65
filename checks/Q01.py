from vt.core import Prop, line


def u(s):
    return [ord(c) for c in s]


RANGE = {"l": (-2 ** 63, 2 ** 63 - 1), "u": (0, 2 ** 64 - 1), "i": (-2 ** 31, 2 ** 31 - 1), "j": (0, 2 ** 32 - 1), "p": (0, 2 ** 47)}
KINDS = ["ll", "li", "uu", "ui", "uj", "ii", "jj", "ij", "ji", "pp"]


class PROP(Prop):
    id = "Q01"
    driver = "tests"
    trace_module = "TstTrace"
    trace_cfg = "seqtrace.cfg"
    new_line = "new []"
    mc = {"quick": [("MCTst", "MCTst_all.cfg"), ("MCTst", "MCTst_few.cfg")],
          "thorough": [("MCTst", "MCTst_all2.cfg"), ("MCTst", "MCTst_few.cfg"), ("MCTst", "MCTst_many.cfg")]}
    walk_len = 40
    walk_limit = 6000
    assumptions = ("messages, names and compared texts are ASCII without '%' before a digit; fractions differ by clearly more or less than the resolution; "
                   "negative numbers are not compared with unsigned 64 bit ones; exceptions are those of the library",)

    def gen(self, rng, tier):
        out = []

        def number(c):
            lo, hi = RANGE[c]
            v = rng.choice([0, 1, 2, hi, hi - 1, lo, lo + 1, 2 ** 31, 2 ** 31 - 1, 2 ** 32, 2 ** 32 - 1, 2 ** 32 + 1, -1, -2 ** 31, rng.randint(lo, hi), rng.randint(0, 9)])
            return v if lo <= v <= hi else rng.randint(lo, hi)

        def real():
            return rng.choice([[], [1], [0, 0], [0, 0]]) if rng.random() < .1 else [rng.choice([0, 1, -1, 5, 400]), rng.randint(-9, 9)]

        def assertion(msg):
            r = rng.random()
            if r < .45:
                k = rng.choice(KINDS)
                lo, hi = max(RANGE[k[0]][0], RANGE[k[1]][0]), min(RANGE[k[0]][1], RANGE[k[1]][1])
                x = number(k[0])
                y = number(k[1])
                if k == "ui":
                    y = abs(y) % 2 ** 31
                q = rng.random()
                if q < .4 and lo <= x <= hi:
                    y = x
                elif q < .55:
                    y = (x + rng.choice([1, -1, 2 ** 32, -2 ** 32, 2 ** 31]))
                    y = y if lo <= y <= hi and (k != "ui" or y >= 0) else x if lo <= x <= hi else lo
                elif q < .65:
                    # the same bits, another number
                    y = x % 2 ** 32
                    y = y if lo <= y <= hi else x if lo <= x <= hi else hi
                return [k, u(str(x)), u(str(y)), msg]
            if r < .6:
                t = rng.choice(["", "a", "Text", "a b", "z" * rng.randint(1, 40), "tEXT", "1"])
                v = rng.choice([t, t, t.upper(), t + "x", t[:-1], "", "other", t.swapcase()])
                return [rng.choice(["ss", "ic"]), u(t), u(v), msg]
            if r < .75:
                while True:
                    x, y = real(), real()
                    if rng.random() < .6 and len(x) == 2:
                        y = [x[0], x[1] + rng.choice([0, 1, 3, -3, 5, -5, 8])]
                    if (len(x) == 2 and len(y) == 2 and (x[0] != y[0] or abs(x[1] - y[1]) != 4)) or (len(x) == 2) != (len(y) == 2):
                        return ["dd", x, y, msg]
            if r < .92:
                k = rng.choice(["null", "some", "true", "false"])
                v = rng.choice(["0", "1"]) if k in ("true", "false") else rng.choice(["0", "1", "4096", str(2 ** 32), str(2 ** 47)])
                return [k, u(v), [], msg]
            return [rng.choice(["fail", "unexp", "fail", "unexp", "throw"]), [], [], msg]
        for _ in range(60 if tier == "quick" else 4000):
            s = []
            for _ in range(rng.randint(1, 4)):
                s.append(line("new", u(rng.choice(["", "", "", "0", "1", "2", "3", "10", "-1", "-5", "x", "1x", "007", "all", "99999999"]))))
                n = 0
                kinds = []
                for _ in range(rng.choice([2, 4, 12])):
                    r = rng.random()
                    if r < .5:
                        q = [assertion(u(rng.choice(["m", "", "message", "it failed", "'a' 'b'", "100 %", "x" * rng.randint(1, 300)]) + rng.choice(["", str(n)])))
                             for _ in range(rng.choice([0, 1, 1, 2, 5, 12]))]
                        s.append(line("add", u(rng.choice(["Test", "", "A longer name", "T", "x" * 100])), q))
                        kinds.append(1)
                        n += 1
                    elif r < .55:
                        s.append(line("none"))
                        kinds.append(0)
                        n += 1
                    elif r < .65 and any(kinds):
                        s.append(line("name", rng.choice([i + 1 for i in range(n) if kinds[i]]), u(rng.choice(["Renamed", "", "a b"]))))
                    else:
                        s.append(line("run"))
                s.append(line("run"))
            out.append(s)
        return out
