from vt.core import Prop, line

PUTS = {"BE16": 2, "BE24": 3, "BE32": 4, "BE64": 8, "LE16": 2, "LEU16": 2, "LE24": 3, "LE32": 4, "LE64": 8, "LED": 8, "LEF": 4}
GETS = {"BE16": 2, "BEU16": 2, "BEU32": 4, "BE32": 4, "BE64": 8, "LEU16": 2, "LE16": 2, "LEU32": 4, "LE32": 4, "LE64": 8, "LED": 8, "LEF": 4}


class PROP(Prop):
    id = "R01"
    driver = "ser"
    trace_module = "SerTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCSer", "MCSer_q.cfg")], "thorough": [("MCSer", "MCSer_t.cfg")]}
    new_line = line("new", list(range(1, 11)))
    walk_len = 150
    walk_limit = 6000
    assumptions = ("the place is inside the buffer; floating point numbers are IEEE 754 and the machine is little-endian",)

    def gen(self, rng, tier):
        out = []
        for _ in range(40 if tier == "quick" else 2000):
            far = _ % 20 == 0
            n = 65536 + rng.randint(8, 40) if far else rng.choice([8, 9, 16, 40])
            place = (lambda w: rng.randint(65536 - w, n - w)) if far else lambda w: rng.randint(0, n - w)
            s = [line("new", [rng.randrange(256) for _ in range(n)])]
            for _ in range(15 if far else 60):
                byte = lambda: rng.choice([0, 1, 127, 128, 255, rng.randrange(256)])
                if rng.random() < .5:
                    k = rng.choice(list(PUTS))
                    v = [byte() for _ in range(PUTS[k])]
                    if k == "LEF" and v[0] & 127 == 127:
                        v[1] |= 64
                    if rng.random() < .2:
                        v = [rng.choice([0, 255])] * PUTS[k]
                    s.append(line("put", k, place(PUTS[k]), v))
                else:
                    k = rng.choice(list(GETS))
                    s.append(line("get", k, place(GETS[k])))
            out.append(s)
        return out
