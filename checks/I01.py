import struct

from vt.core import Prop, line

TEXTS = ["", "a", "b", "Open", "open file", "\u00e4", "\u20ac %1", "x\ny", "%1 of %2", "a", "Project-Id: x\n", "zz", "\U0001f600", "=", "\\n", "key "]


def units(v):
    return [x for c in v for x in ([ord(c)] if ord(c) < 65536 else [0xd800 + (ord(c) - 65536 >> 10), 0xdc00 + (ord(c) - 65536 & 1023)])]


class PROP(Prop):
    id = "I01"
    driver = "prefs"
    trace_module = "PrefsTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCPrefs", "MCPrefs_cat.cfg")], "thorough": [("MCPrefs", "MCPrefs_catt.cfg")]}
    walk_len = 150
    walk_limit = 8000
    assumptions = ("catalogs in little-endian order with texts in UTF-8",)

    def walk_scenario(self, ops, module):
        s = []
        for o in super().walk_scenario(ops, module):
            s.append(o)
            if o.startswith("mo"):
                s += ["tr [120]", "tr [121]", "tr [120,121]", "tr []"]
        return s

    def catalog(self, rng):
        es = [(rng.choice(TEXTS) + rng.choice(["", "", "1", "2"]), rng.choice(TEXTS)) for _ in range(rng.choice([0, 1, 2, 5, 40]))]
        n = len(es)
        share = rng.random() < .3
        order = rng.choice([0, 1])
        gap = rng.choice([0, 0, 4, 13])
        pool = b""
        place = {}
        tabs = [[], []]
        base = 20 + gap + 16 * n
        for j in (0, 1):
            for e in es:
                b = e[j].encode("utf-8")
                if share and b in place:
                    at = place[b]
                else:
                    at = base + len(pool)
                    place[b] = at
                    pool += b + (b"\0" if rng.random() < .9 else b"")
                tabs[j].append((len(b), at))
        t = [b"".join(struct.pack("<II", *x) for x in tab) for tab in tabs]
        o, r = 20 + gap, 20 + gap + 8 * n
        if order:
            o, r = r, o
        b = struct.pack("<IIIII", 0x950412de, 0, n, o, r) + b"\xaa" * gap + (t[1] + t[0] if order else t[0] + t[1]) + pool
        return bytearray(b), es

    def gen(self, rng, tier):
        out = []
        for _ in range(60 if tier == "quick" else 3000):
            s = ["new"]
            for _ in range(rng.choice([1, 3, 8])):
                b, es = self.catalog(rng)
                if rng.random() < .4 and b:
                    for _ in range(rng.choice([1, 1, 3])):
                        k = rng.choice(["cut", "byte", "big", "hdr"])
                        if k == "cut" and len(b) > 1:
                            del b[rng.randrange(len(b)):]
                        elif k == "byte" and b:
                            b[rng.randrange(len(b))] = rng.choice([0, 1, 255, 128, rng.randrange(256)])
                        elif k == "big" and len(b) > 28:
                            i = rng.randrange(2, len(b) // 4) * 4
                            b[i:i + 4] = struct.pack("<I", rng.choice([0xffffffff, 0x7fffffff, 0x80000000, 0x1fffffff, 0x20000000, len(b), len(b) + 1, len(b) - 1]))
                        elif len(b) > 20:
                            b[rng.randrange(20)] ^= 1 << rng.randrange(8)
                # a mark of another encoding at the start of a text is not for this property
                t = bytes(b)
                if b"\xfe\xff" in t or b"\xff\xfe" in t:
                    continue
                s.append(line("mo", list(t)))
                ks = [e[0] for e in es] + ["nokey", "a", ""]
                for k in (ks if len(ks) < 8 else rng.sample(ks, 8)):
                    s.append(line("tr", units(k)))
                if rng.random() < .2:
                    s.append(line("set", units(rng.choice(ks)), units(rng.choice(TEXTS))))
            out.append(s)
        # catalogs of many entries: their tables and texts lie beyond the reach of small numbers
        for n in [3000, 9000] + ([4097, 33000, 70000] if tier != "quick" else []):
            s = ["new", line("set", [107, 49], [120]), line("set", [122], [121]), line("momany", n, 107, 116)]
            for i in sorted({0, 1, 31, 32, 255, 256, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 32767, 32768, 65535, 65536, n - 1, n, rng.randrange(n)}):
                s.append(line("tr", [107] + [ord(c) for c in str(i)]))
            out.append(s + [line("tr", [122]), line("momany", 50, 107, 117), line("tr", [107, 52, 57]), line("tr", [107, 53, 48])])
        return out
