from vt.core import Prop, line

EDGE = [0, 1, 9, 10, 11, 15, 16, 17, 25, 26, 27, 51, 52, 53, 99, 100, 255, 256, 675, 676, 677, 701, 702, 703, 704, 2**31 - 1,
        2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 2**53] + [10**k + d for k in range(1, 19) for d in (-1, 0, 1)] \
    + [sum(26**j for j in range(k + 1)) + d for k in range(1, 13) for d in (-1, 0, 1)] + [26**k + d for k in range(2, 14) for d in (-1, 0, 1)]


class PROP(Prop):
    id = "N01"
    driver = "codec"
    trace_module = "NotationTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCNotation", "MCNotation_nq.cfg")], "thorough": [("MCNotation", "MCNotation_nt.cfg")]}
    walk_len = 400
    assumptions = ("hexadecimal texts consist of hexadecimal digits; letter numerals of numbers below 1 and Roman numerals of "
                   "negative numbers are left open",)

    def gen(self, rng, tier):
        out = []
        dg = lambda v: [int(c) for c in str(v)]
        vals = list(EDGE)
        for _ in range(300 if tier == "quick" else 8000):
            vals.append(rng.choice([rng.getrandbits(rng.randint(1, 63)), rng.randrange(16**rng.randint(1, 15)),
                                    26 * rng.randrange(26**rng.randint(1, 12)), 1 << rng.randrange(63)]))
        for i in range(0, len(vals), 60):
            s = ["new"]
            for v in vals[i:i + 60]:
                if v >= 2**63:
                    continue
                s += [line("digits", 0, dg(v)), "hex"]
                if v:
                    s.append("latin")
                    s += [line("digits", 1, dg(v)), "hex"]
                if v <= 20000:
                    s.append(line("roman", v))
                t = "%x" % v if rng.random() < .7 else "%x" % (2**64 - 1 - v)
                t = "".join(c.upper() if rng.random() < .5 else c for c in t)
                t = "0" * rng.choice([0, 0, 1, 5]) + t
                s.append(line("fromhex", [ord(c) for c in t]))
                a = rng.randint(0, len(t))
                s.append(line("parthex", [ord(c) for c in t], a, rng.randint(0, len(t) - a)))
            out.append(s)
        out.append(["new", line("digits", 1, dg(2**63)), "hex"] + [line("fromhex", [])] +
                   [line("roman", v) for v in list(range(0, 400)) + [999, 1000, 1999, 3999, 4000, 9999]])
        return out
