from vt.core import Prop, line


def digits(n):
    return [int(ch) for ch in str(abs(n))]


class PROP(Prop):
    id = "S04"
    driver = "fmt"
    trace_module = "FmtTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCFmt", "MCFmt_q.cfg")], "thorough": [("MCFmt", "MCFmt_t.cfg")]}
    walk_len = 200
    assumptions = ("floating-point values are dyadic (w + f/2^k, k <= 10) with one to five digits asked for, so that "
                   "the decimal rounding is exact, and negative values that round to zero are left out",
                   "numbers shown with ten digits have at most ten significant digits",
                   "template numbers have no leading zero; integers to read have at least one digit and at most 18")

    def num(self, rng, lo=-(1 << 63), hi=(1 << 63) - 1):
        r = rng.random()
        if r < 0.25:
            n = rng.choice([lo, lo + 1, hi, hi - 1, 0, 1, -1, 9, 10, -10, 99, 100, 2147483647, -2147483648, 4294967295,
                            10 ** 18, -10 ** 18, 10 ** 17 + 1])
        else:
            n = rng.randint(-10 ** rng.randint(1, 18), 10 ** rng.randint(1, 18))
        return min(max(n, lo), hi)

    def dy(self, rng, p):
        """w, f, k with a value that does not round to zero"""
        while True:
            k = rng.randint(0, 10)
            f = rng.randrange(1 << k)
            w = rng.choice([0, 1, 9, 10, 99, 999, rng.randint(0, 10 ** rng.randint(1, 6))])
            if rng.random() < 0.2:
                f = (1 << k) - 1
            if w or f * 10 ** p >> k:
                return w, f, k

    def real(self, rng):
        n = rng.randint(1, 10)
        d = [rng.randint(0, 9) for _ in range(n)]
        d[0] = d[0] or rng.randint(1, 9)
        if n > 1:
            d[-1] = d[-1] or rng.randint(1, 9)
        if rng.random() < .05:
            return [0], 0
        return d, rng.choice([0, 0, 1, 2, 3, 8, 9, 10, 11, -1, -2, -3, -4, -5, -6, 99, 100, -99, -100, 300, -300,
                              rng.randint(-12, 12)])

    def gen(self, rng, tier):
        out = []
        n = 1 if tier == "quick" else 15
        for _ in range(200 * n):
            s = ["new"]
            for _ in range(25):
                v = self.num(rng)
                s.append(line(rng.choice(["int", "shl"]), int(v < 0), digits(v)))
                v = self.num(rng, 0, (1 << 64) - 1)
                s.append(line("uint", 0, digits(v)))
                p = rng.randint(1, 5)
                s.append(line("dbl", rng.randint(0, 1), *self.dy(rng, p), p, rng.randint(0, 1)))
                t = [48 + rng.randint(0, 9) for _ in range(rng.randint(1, 18))]
                r = rng.random()
                if r < 0.4:
                    t = [45] + t
                elif r < 0.6:
                    t.insert(rng.randint(0, len(t)), rng.choice([45, 46, 32, 43, 97, 58, 47, 0x660]))
                s.append(line("toint", t))
                w, f, k = self.dy(rng, 3)
                neg = rng.randint(0, 1)
                dec = str(w)
                if f:
                    dec += "." + str(f * 10 ** k // (1 << k)).rjust(k, "0")
                s.append(line("todbl", [ord(x) for x in ("-" if neg else "") + dec], neg, w, f, k))
                s.append(line("comma", [ord(x) for x in ("-" if neg else "") + dec.replace(".", rng.choice(".,"))], neg, w, f, k))
                s.append(line("real", rng.randint(0, 1), *self.real(rng)))
                b = list(rng.choice(["true", "false", "1", "tru", "truee", "yes"]))
                s.append(line("bool", [ord(x.upper() if rng.random() < 0.4 else x) for x in b]))
            out.append(s)
        for _ in range(60 * n):
            s = ["new", line("truth", 0), line("truth", 1)]
            for _ in range(14):
                k = rng.randint(0, 4)
                lo, hi = {1: (0, (1 << 64) - 1), 2: (-1 << 31, (1 << 31) - 1), 3: (0, (1 << 32) - 1)}.get(
                    k, (-1 << 63, (1 << 63) - 1))
                v = self.num(rng, lo, hi)
                t = [rng.choice([65, 37, 32, 97, 48]) for _ in range(rng.randint(0, 5))]
                k2, k3 = rng.randint(0, 4), rng.randint(0, 1)
                w = self.num(rng)
                s += [line("cat", k, int(v < 0), digits(v)),
                      rng.choice([line("catr", rng.randint(0, 1), rng.randint(0, 1), *self.real(rng)),
                                  line("prer", rng.randint(0, 1), *self.real(rng)),
                                  line("pre", int(w < 0), digits(w)),
                                  line("catt", k2, t if k2 < 2 else [65]), line("pret", k3, t if k3 < 1 else [66])])]
                if rng.random() < .2:
                    s.append(line("tmpl", t))
            out.append(s)
        for _ in range(400 * n):
            s = ["new"]
            for _ in range(8):
                t = []
                k = rng.randint(0, 5)
                for i in range(k):
                    t += [rng.choice([97, 32, 0x20ac]) for _ in range(rng.randint(0, 3))]
                    t += [37] + [ord(x) for x in str(rng.choice([1, 2, 3, 4, 9, 10, 11, 20, 99]))]
                    if rng.random() < 0.2:
                        t += [37]
                t += [97] * rng.randint(0, 2)
                s.append(line("tmpl", t))
                for _ in range(k + 1):
                    w = rng.choice([0, 0, 1, 3, 12, -1, -4, -12])
                    c = rng.choice([32, 42, 46])
                    r = rng.random()
                    if r < 0.35:
                        s.append(line("args", [rng.choice([98, 37, 50, 0xe4]) if rng.random() < .1 else 98
                                               for _ in range(rng.randint(0, 4))], w, c))
                    elif r < 0.45:
                        s.append(line("argc", rng.choice([98, 46, 0x4e2d]), w, c))
                    elif r < 0.8:
                        op = rng.choice(["argi", "argu", "argi32", "argu32"])
                        lo, hi = {"argi": (-1 << 63, (1 << 63) - 1), "argu": (0, (1 << 64) - 1),
                                  "argi32": (-1 << 31, (1 << 31) - 1), "argu32": (0, (1 << 32) - 1)}[op]
                        v = self.num(rng, lo, hi)
                        s.append(line(op, int(v < 0), digits(v), w, c))
                    else:
                        p = rng.choice([1, 2, 5])
                        s.append(line("argd", rng.randint(0, 1), *self.dy(rng, p), p, w, c))
            out.append(s)
        return out
