from vt.core import Prop, line

SETS = ["UTF-8", "UTF-16LE", "UTF-16BE", "Windows-1252", "MacRoman", "RAW", "ASCII"]


def chart(codec):
    out = []
    for i in range(1, 256):
        try:
            out.append(ord(bytes([i]).decode(codec)))
        except UnicodeDecodeError:
            pass
    return out


CHARTS = {"Windows-1252": chart("cp1252"), "MacRoman": chart("mac_roman"),
          "RAW": list(range(1, 256)), "ASCII": list(range(1, 256))}
UNDEF = {0x81, 0x8D, 0x8F, 0x90, 0x9D}
DECS = ["dec", "decn", "decz", "decarr"]


class PROP(Prop):
    id = "E01"
    driver = "enc"
    trace_module = "EncTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCEnc", "MCEnc_q.cfg")], "thorough": [("MCEnc", "MCEnc_t.cfg")]}
    walk_len = 200
    assumptions = ("characters a single-byte set cannot express, undefined places of Windows-1252, and a byte order "
                   "mark of the other order in UTF-16 data are left open, as the documentation does",)

    def walk_scenario(self, ops, module):
        import json
        self.k = getattr(self, "k", 0)
        out = ["new"]
        for o in ops:
            o = json.loads(o)
            if o[0] == "dec":
                self.k += 1
                o[0] = DECS[self.k % 4]
            if o[0] == "enc" and self.k % 2:
                o[0] = "encarr"
            out.append(line(*o))
        return out

    def gen(self, rng, tier):
        n = 1 if tier == "quick" else 20
        out = []
        # every place of the charts; every code unit (sampled in the quick tier) through the Unicode encodings
        for cs, tab in CHARTS.items():
            s = ["new", line("text", tab), line("enc", cs), line("dec", cs)]
            for i in range(1, 256):
                if cs != "Windows-1252" or i not in UNDEF:
                    s += [line("bytes", [i]), line(rng.choice(DECS), cs)]
            for c in tab:
                s += [line("text", [c]), line(rng.choice(["enc", "encarr"]), cs)]
            out.append(s)
        units = range(0, 65536) if tier != "quick" else \
            sorted({x + d for x in (0x80, 0x800, 0x1000, 0x4000, 0x8000, 0xd800, 0xdc00, 0xe000, 0xfeff, 0xfffe)
                    for d in range(-3, 4) if x + d < 65536} | {rng.randrange(65536) for _ in range(400)})
        units = list(units)
        for i in range(0, len(units), 200):
            s = ["new"]
            for c in units[i:i + 200]:
                for cs in SETS[:3]:
                    s += [line("text", [97, c]), line(rng.choice(["enc", "encarr"]), cs)]
                    if c:
                        s += [line(rng.choice(DECS), cs)]
            out.append(s)
        for _ in range(60 * n):
            s = ["new"]
            for _ in range(12):
                t = [self.unit(rng) for _ in range(rng.choice([0, 1, 2, 5, 20, 70, 70, rng.choice([255, 256, 257, 300, 520])]))]
                if rng.random() < .3:
                    t = sum(([0xd800 + rng.randrange(1024), 0xdc00 + rng.randrange(1024)]
                             for _ in range(rng.randint(1, 6))), [])
                    if rng.random() < .4:
                        t.pop(rng.randrange(len(t)))
                cs = rng.choice(SETS[:3])
                s += [line("text", t), line(rng.choice(["enc", "encarr"]), cs)]
                if not (cs != "UTF-8" and t and t[0] in (0xfffe, 0xfeff)):
                    s.append(line(rng.choice(DECS), cs))
                cs = rng.choice(SETS[3:])
                s += [line("text", [rng.choice(CHARTS[cs]) for _ in range(rng.randint(0, 30) if rng.random() < .9 else rng.choice([255, 256, 257, 300, 600]))]), line("enc", cs),
                      line(rng.choice(DECS), cs)]
                s += [line("text", t if t[:1] not in ([0xfeff], [0xfffe]) else []), "urlenc", "urldec"]
                u = [rng.choice([[43], [37, 50, 66], [37, 99, 51, 37, 97, 52], [97], [37, 53, 70], [37, 69, 70]])
                     for _ in range(rng.randint(0, 8))]
                s += [line("text", sum(u, [])), "urldec"]
            out.append(s)
        for _ in range(150 * n):
            s = ["new"]
            for _ in range(10):
                b = [rng.choice([rng.randrange(256), rng.choice([0xc3, 0xe2, 0xf0, 0xf4, 0xef, 0xbf, 0x80, 0x9f, 0x41])])
                     for _ in range(rng.choice([0, 1, 2, 3, 4, 9, 30]))]
                r = rng.random()
                if r < .15:
                    b = list(rng.choice([b"\xef\xbb\xbf", b"\xfe\xff", b"\xff\xfe", b"\xef\xbb", b"\xff", b"\xfe"])) + b
                elif r < .5:
                    b = [x for x in b if x]
                s.append(line("bytes", b))
                for cs in rng.sample(SETS, 3):
                    if cs == "Windows-1252" and UNDEF & set(b) or \
                            cs == "UTF-16LE" and b[:2] == [254, 255] or cs == "UTF-16BE" and b[:2] == [255, 254]:
                        continue
                    s.append(line(rng.choice(DECS), cs))
                s.append("guess")
                k = rng.randint(1, 40)
                z = rng.choice([0, 0, rng.randrange(256)])
                b = sum(([rng.randint(1, 255), z] if rng.random() < .5 else [rng.randint(1, 127), 0]
                         for _ in range(k)), [])
                if rng.random() < .5:
                    b = b[1:] + [0 if rng.random() < .5 else 65]
                s += [line("bytes", b), "guess"]
            out.append(s)
        # guessing reads the first 4096 bytes only for zeros, all of them for ASCII
        for k in (4095, 4096, 4097, 5000):
            b = [65] * k
            s = ["new", line("bytes", b), "guess", line("bytes", b + [200]), "guess", line("bytes", b[:-1] + [200]), "guess",
                 line("bytes", [65, 0] * (k // 2)), "guess", line("bytes", [0, 65] * (k // 2)), "guess"]
            out.append(s)
        for k in (65536, 65537, 70000):
            out.append(["new", line("bytes", [65, 0] * (k // 2)), "guess", line("bytes", [65] * k + [200]), "guess"])
        s = ["new"]
        for name in SETS + ["utf-8", "UTF-9", "", "ascii", "MacRoman2"]:
            s.append('known "%s"' % name)
        for _ in range(40):
            names = ["a%d" % i for i in range(rng.randint(1, 6))]
            s.append(line("alias", rng.choice(names + ["zz", "a"]), names))
        out.append(s)
        return out

    def unit(self, rng):
        c = rng.choice([rng.randint(1, 127), rng.randint(0x80, 0x7ff), rng.randint(0x800, 0xffff), 32, 37, 43])
        return c
