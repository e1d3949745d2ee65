from vt.core import Prop, line


class PROP(Prop):
    id = "N02"
    driver = "num"
    trace_module = "NumTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCNum", "MCNum_q.cfg")], "thorough": [("MCNum", "MCNum_t.cfg")]}
    walk_len = 300
    assumptions = ("values whose exact result is representable; comparisons away from the very edge of the tolerance",)

    def gen(self, rng, tier):
        out = []
        big = lambda: rng.choice([rng.randint(-99, 99), rng.randint(-99999, 99999), rng.randint(-1000000000, 1000000000)])
        for _ in range(40 if tier == "quick" else 1000):
            s = ["new"]
            for _ in range(40):
                y = big() or 1
                x = rng.choice([big(), y * rng.randint(-9, 9) + rng.randint(-1, 1) if abs(y) < 99999 else y])
                s += [line("div", x, y), line("mod0", x)]
                s += [line("round", rng.randint(-800000, 800000)), line("frac", rng.randint(-8000, 8000), rng.randint(0, 3))]
                g = rng.choice([1, -1])
                s.append(line("fracBig", g * rng.choice([0, 1, rng.randint(0, 99999), rng.randint(0, 999999)]), g * rng.randint(0, 8000), rng.randint(0, 3)))
                y = rng.choice([1, -1]) * rng.choice([1, 2, 3, rng.randint(1, 99), rng.randint(1, 99999)])
                s.append(line("divBig", rng.randint(-9999, 9999), rng.randint(0, 999999999), y, (1 if y > 0 else -1) * rng.randint(0, abs(y) - 1)))
                a = rng.randint(-30, 30)
                b = rng.choice([a, a + rng.randint(-12, 12), rng.randint(-3000, 3000)])
                if abs(a - b) != 10:
                    s.append(line("cmp", rng.randint(-50, 50), a, b))
                s += [line("sign", rng.choice([0, 1, -1, big()]))]
                v = rng.choice([1 << rng.randrange(32), rng.randint(1, 1 << 31), max(1, (1 << rng.randrange(32)) + rng.randint(-1, 1))])
                if v <= 1 << 31:
                    s.append(line("pow2", v >> 16, v & 65535))
                s += [line("nopow", -rng.randint(0, 2000000000))]
                k = rng.randrange(5)
                lim = [255, 65535, 2147483647, 2147483647, 2147483647][k]
                s += [line("swap", k, rng.randint(0, lim), rng.randint(0, lim)), line("swapSame", k, rng.randint(0, lim))]
                if k > 2:
                    s += [line("swap", k, -rng.randint(0, lim), rng.randint(0, lim)), line("swapSame", k, -rng.randint(0, lim))]
                lo = rng.randint(-1000, 1000)
                s += [line("mix", rng.randint(-999, 999), rng.randint(-999, 999), rng.randint(0, 8))]
                b, w = rng.randint(-99, 99), 1 << rng.randrange(6)
                s += [line("mix5", rng.randint(-999, 999), rng.randint(-999, 999), b, b + w, b + rng.randint(0, w))]
                s += [line("deg", rng.randint(-720, 720))]
            s += [line("random", lo, lo + rng.choice([0, 1, 5, 1000])), "unit"]
            out.append(s)
        return out
