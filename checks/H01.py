from vt.core import Prop, line


class PROP(Prop):
    id = "H01"
    driver = "map"
    trace_module = "MapTrace"
    trace_cfg = "seqtrace.cfg"
    mc = [("MCMap", "MCMap_q.cfg"), ("MCMap", "MCMap_same.cfg"), ("MCMap", "MCMap_place.cfg")]
    walk_len = 150
    assumptions = ("values are not the null pointer, which the interface uses for 'nothing'",)

    def keys(self, rng, n):
        """Texts with many equal hash codes, and ordinary ones."""
        out = []
        while len(out) < n:
            r = rng.random()
            if r < 0.4:
                k = [c for _ in range(rng.randint(1, 5)) for c in rng.choice([[65, 97], [66, 66]])]
            elif r < 0.8:
                k = [ord(c) for c in "key%d" % rng.randint(0, 3 * n)]
            elif r < 0.9:
                k = [rng.choice([0xe4, 0x4e2d, 0xffff, 0x20ac]) for _ in range(rng.randint(1, 12))]
            else:
                k = [rng.randint(97, 122) for _ in range(rng.choice([0, 1, 2, 40]))]
            if k not in out:
                out.append(k)
        return out

    def gen(self, rng, tier):
        out = []
        for _ in range(40 if tier == "quick" else 400):
            ks = self.keys(rng, rng.choice([4, 12, 40, 120]))
            s = ["new"]
            p_put = rng.choice([0.3, 0.5, 0.8])
            for _ in range(rng.choice([60, 300])):
                k = rng.choice(ks)
                r = rng.random()
                h = rng.randint(0, 3)
                if r < p_put:
                    s.append(line("put", k, rng.randint(1, 30), h))
                elif r < p_put + (1 - p_put) * 0.4:
                    s.append(line("remove", k, h))
                elif r < p_put + (1 - p_put) * 0.7:
                    s.append(line(rng.choice(["get", "get", "has"]), k, h))
                elif r < 0.985:
                    s.append(rng.choice(["keys", "values", "keysNow", "valuesNow"]))
                elif r < 0.99:
                    s.append("clear")
            s += [line("get", k, 0) for k in ks] + ["keys", "values", "keysNow", "valuesNow"]
            s += [line("remove", k, 0) for k in ks[: len(ks) // 2]] + ["keys", "values", "clear", "keys"]
            s += [line("put", k, 7, 0) for k in ks[:9]] + ["keys"]
            out.append(s)
        # more entries than one or two bytes count
        for n in (rng.randint(250, 300), rng.randint(5000, 9000), 65536 + rng.randint(0, 99)):
            far = lambda: [107] + [ord(c) for c in str(rng.randint(0, n))]
            s = ["new", line("putmany", 0, n // 2, 1), line("putmany", n // 2 + 1, n - 1, 2)]
            for _ in range(4):
                s += [line("get", far(), 0), line("put", far(), 3, 0), line("remove", far(), 1), line("has", far(), 2)]
            s += ["keys", "values", line("removemany", 5, n - 7), "keys", "valuesNow", line("putmany", 3, 30, 4), "keysNow", "clear"]
            out.append(s)
        return out
