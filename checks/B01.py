import base64
from vt.core import Prop, line


class PROP(Prop):
    id = "B01"
    driver = "codec"
    trace_module = "NotationTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCNotation", "MCNotation_bq.cfg")], "thorough": [("MCNotation", "MCNotation_bt.cfg")]}
    walk_len = 150
    assumptions = ("texts to decode consist of the 64 letters and padding at the end; other characters, such as line "
                   "breaks, are left open",)

    def gen(self, rng, tier):
        out = []
        for i in range(60 if tier == "quick" else 1500):
            s = ["new"]
            for _ in range(12):
                n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 30, 31, 32, 200])
                a = rng.choice([list(range(256)), [0], [255], [251, 255, 191], list(range(128, 256))])
                d = [rng.choice(a) for _ in range(n)]
                s += [line("bytes", d), line("crc", rng.choice([0, 1, 65535, 49345, rng.randrange(65536)])), "enc64"]
                if rng.random() < .5:
                    s.append("dec64")
                t = list(base64.b64encode(bytes(d)))
                if rng.random() < .5 and t:
                    while t and t[-1] == 61:
                        t.pop()
                    t = t[:rng.randint(0, len(t))] if rng.random() < .5 else t
                    s += [line("text", t), "dec64", line("crc", 0)]
            out.append(s)
        # every byte at every place of a group, every letter at every place
        s = ["new"]
        al = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
        for k in range(4):
            for v in range(256):
                if k < 3:
                    d = [rng.randrange(256) for _ in range(3)]
                    d[k] = v
                    s += [line("bytes", d[:rng.randint(k + 1, 3)]), line("crc", 0), "enc64", "dec64"]
            for c in al:
                q = [rng.choice(al) for _ in range(4)]
                q[k] = c
                s += [line("text", q), "dec64"]
        out.append(s)
        for n in (1000, 5000, 5001):
            out.append(["new", line("bytes", [rng.randrange(256) for _ in range(n)]), "enc64", "dec64", line("crc", 49345)])
        for n in (65535, 65536, 70001):
            out.append(["new", line("bytes", [rng.randrange(256) for _ in range(n)]), line("crc", 49345)])
        return out
