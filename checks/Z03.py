import io
import zipfile
from vt.core import Prop, line

NAMES = ["a", "b/", "dir/file.txt", "ä€.bin", "x" * 120, "", "PK", "a b", "\U0001f600", "dir/"]
units = lambda s: [x for c in s for x in ([ord(c)] if ord(c) < 65536 else
                                         [0xd800 + ((ord(c) - 65536) >> 10), 0xdc00 + ((ord(c) - 65536) & 1023)])]


class PROP(Prop):
    id = "Z03"
    driver = "zip"
    trace_module = "ZipTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCZip", "MCZip_q.cfg"), ("MCZip", "MCZip_two.cfg")],
          "thorough": [("MCZip", "MCZip_t.cfg"), ("MCZip", "MCZip_two.cfg")]}
    walk_len = 60
    assumptions = ("archives beyond 2 GiB or 65535 entries, encryption and ZIP64 are left open; a wrong checksum in a "
                   "damaged archive need not be noticed",
                   "writing to an entry and then writing a file over it is left open")

    def data(self, rng):
        n = rng.choice([0, 1, 2, 30, 31, 300])
        return [rng.choice([0, 80, 75, 5, 6, 1, 2, 255, 65, rng.randrange(256)]) for _ in range(n)]

    def foreign(self, rng):
        f = io.BytesIO()
        if rng.random() < .3:
            f.write(bytes(rng.randrange(256) for _ in range(rng.randint(1, 40))))
        with zipfile.ZipFile(f, "a" if f.tell() else "w") as z:
            names = [rng.choice([x for x in NAMES if x]) for _ in range(rng.choice([0, 1, 2, 5]))]
            for n in names:
                d = bytes(self.data(rng)) * rng.choice([1, 1, 4])
                i = zipfile.ZipInfo(n, (2020, 1, 2, 3, 4, 6))
                i.compress_type = rng.choice([0, 8])
                i.comment = bytes(rng.randint(1, 120) for _ in range(rng.choice([0, 0, 0, 7, 7, 260])))
                if rng.random() < .3:
                    k = rng.choice([4, 4, 260, 700])
                    i.extra = b"\x99\x99" + k.to_bytes(2, "little") + b"e" * k
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    if rng.random() < .3:
                        with z.open(i, "w") as g:   # sizes behind the data when the stream cannot seek
                            g.write(d)
                    else:
                        z.writestr(i, d)
            if rng.random() < .3:
                z.comment = rng.choice([b"c", b"PK", b"PK\x05", b"comment \xc3\xa4", b"x" * 300, b"PK\x01\x02"])
        return list(f.getvalue()), names

    def gen(self, rng, tier):
        out = []
        big = tier != "quick"
        for _ in range(40 if not big else 600):
            s = ["new"]
            for n in rng.sample(["jmzipdata.tmp", "jmzipdata0.tmp", "jmzipdata1.tmp", "one.tmp", "one.zip.tmp", "data"],
                                rng.choice([0, 1, 3])):
                if ".zip" not in n:
                    s.append('user "%s" %s' % (n, str([rng.randrange(256) for _ in range(3)]).replace(" ", "")))
            st = {v: None for v in (1, 2, 3)}     # None: closed, else [entries, open entry or None]
            for _ in range(rng.choice([15, 50])):
                v = rng.choice([1, 2, 3])
                if st[v] is None:
                    st[v] = [0, None]
                    s.append(line("wopen", v))
                elif st[v][1] is None:
                    if rng.random() < .6:
                        s.append(line("put", v, units(rng.choice(NAMES))))
                        st[v] = [st[v][0] + 1, 0]
                    else:
                        s.append(line("wclose", v))
                        n = st[v][0]
                        st[v] = None
                        if rng.random() < .8:
                            s.append(line("ropen", v, rng.randrange(2)))
                            s += [line("read", v, k) for k in range(1, n + 2)]
                            s.append(line("find", v, units(rng.choice(NAMES))))
                            if rng.random() < .3:
                                s += [line("ropen", v, rng.randrange(2)), line("read", v, 1)]
                            s.append(line("rclose", v))
                else:
                    d = self.data(rng)
                    r = rng.random()
                    if r < .5:
                        o = rng.randint(0, len(d))
                        s.append(line("write", v, d, o, rng.randint(0, len(d) - o)))
                        st[v][1] = 1
                    elif r < .7 and st[v][1] == 0:
                        s.append(line("writefile", v, d))
                        st[v][1] = None
                    else:
                        s.append(line("closeentry", v))
                        st[v][1] = None
            out.append(s)
        for _ in range(120 if not big else 2500):
            s = ["new"]
            for _ in range(4):
                v = rng.choice([1, 2, 3])
                b, names = self.foreign(rng)
                dmg = 0
                if rng.random() < .5:
                    dmg = 1
                    r = rng.random()
                    if r < .3:
                        b = b[:rng.randint(0, len(b) - 1)]
                    elif r < .4:
                        b = b + [rng.randrange(256) for _ in range(rng.randint(1, 50))]
                    elif r < .7:
                        k = len(b) - 22 + rng.randrange(22)
                        b[k] = rng.choice([0, 1, 255, rng.randrange(256)])
                    else:
                        for _ in range(rng.randint(1, 3)):
                            b[rng.randrange(len(b))] = rng.choice([0, 1, 8, 127, 128, 255, rng.randrange(256)])
                s += [line("load", v, b, dmg), line("ropen", v, rng.randrange(2))]
                if not dmg:
                    s += [line("read", v, k) for k in range(1, len(names) + 2)]
                    s += [line("find", v, units(rng.choice(NAMES))) for _ in range(2)]
                    if rng.random() < .3:
                        s += [line("ropen", v, 0), line("read", v, 1)]
                    s.append(line("rclose", v))
                else:
                    # whether it can be opened is for the specification to say
                    s += [line("tryread", v, k) for k in range(1, len(names) + 2)] + [line("tryclose", v)]
            out.append(s)
        for n in (0, 1, 22, 5000):
            out.append(["new", line("load", 1, [rng.randrange(256) for _ in range(n)], 1), line("ropen", 1, n % 2), line("tryclose", 1)])
        # an entry of more than 65535 bytes
        d = [rng.randrange(256) for _ in range(8200)]
        for k in (0, 1):
            s = ["new", line("wopen", 1), line("put", 1, units("a"))]
            s += [line("write", 1, d, 0, 8200)] * 8 if k else [line("writefile", 1, d * 8)]
            s += [line("closeentry", 1)] * k + [line("wclose", 1), line("ropen", 1, 0), line("read", 1, 1), line("rclose", 1)]
            out.append(s)
        for n in (70, 300):
            s = ["new", line("wopen", 1)]
            for k in range(n):
                s += [line("put", 1, units("n%d" % k)), line("write", 1, [k % 256], 0, 1), line("closeentry", 1)]
            s += [line("wclose", 1), line("ropen", 1, 0)] + [line("read", 1, k) for k in range(1, n + 1, 17)]
            out.append(s)
        s = ["new", line("wopen", 1), line("put", 1, units("big"))]
        for k in range(3):
            s.append(line("write", 1, [rng.randrange(256) for _ in range(9000)], 0, 9000))
        s += [line("closeentry", 1), line("put", 1, units("file")), line("writefile", 1, [rng.randrange(256) for _ in range(9000)]),
              line("wclose", 1), line("ropen", 1, 0), line("read", 1, 1), line("read", 1, 2), line("rclose", 1),
              # a shorter one over it
              line("wopen", 1), line("put", 1, units("small")), line("closeentry", 1), line("wclose", 1),
              line("ropen", 1, 0), line("read", 1, 1), line("rclose", 1)]
        out.append(s)
        return out
