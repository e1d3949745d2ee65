import json
import zlib
from vt.core import Prop, line
from vt import deflate as df


class PROP(Prop):
    id = "Z01"
    driver = "deflate"
    trace_module = "DeflateTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCDeflate", "MCDeflate_q.cfg")], "thorough": [("MCDeflate", "MCDeflate_t.cfg")]}
    walk_len = 40
    assumptions = ("the whole stream is given at once; preset dictionaries and the checksum behind the stream are not "
                   "read by the code and left open",)

    def scen(self, ops, rng, cuts=1):
        raw = rng.random() < .4
        s = ["new"] + [line(*o) for o in ops]
        data = df.write(ops)
        # the checksum that follows a stream may be missing, or be there
        bad = any(o[0] == "type3" or o[0] == "stored" and o[3] or o[0] == "tokens" and any(x[0] < 0 for x in o[1])
                  for o in ops)
        bad = bad or self.far(ops)
        s.append(line("inflraw", 0, data[2:]) if raw else line("inflate", 0, data))
        if not bad:
            for _ in range(cuts):
                c = rng.choice([1, 2, rng.randint(1, max(1, len(data) - 3))])
                if c < len(data) - 2:
                    s.append(line("inflraw", c, data[2:-c]) if rng.random() < .5 else line("inflate", c, data[:-c]))
        return s

    def far(self, ops):
        n = 0
        for o in ops:
            if o[0] == "stored":
                n += len(o[2])
            elif o[0] == "tokens":
                for x in o[1]:
                    if len(x) > 1 and x[1] > n:
                        return True
                    n += 1 if len(x) == 1 else x[0]
        return False

    def toks(self, rng, n, k, alpha):
        out = []
        for _ in range(k):
            if n < 1 or rng.random() < .6:
                out.append([rng.choice(alpha)])
                n += 1
            else:
                ln = rng.choice([3, 4, 10, 11, 12, 18, 19, 66, 67, 130, 131, 162, 195, 226, 227, 257, 258, rng.randint(3, 258)])
                d = rng.choice([1, 2, 3, n, rng.randint(1, n)])
                d = min(d, n, 32768)
                out.append([ln, d])
                n += ln
        return out, n

    def gen(self, rng, tier):
        out = []
        big = tier != "quick"
        for _ in range(250 if not big else 4000):
            ops = [["header", *rng.choice([(120, 1), (120, 94), (120, 156), (120, 218), (8, 29), (56, 17)])]]
            n = 0
            nb = rng.randint(1, 4)
            alpha = rng.choice([[97, 98], list(range(256)), [0, 143, 144, 255], list(range(60, 90))])
            spoil = rng.random() < .15
            for b in range(nb):
                f = int(b == nb - 1)
                r = rng.random()
                if spoil and f:
                    q = rng.randrange(4)
                    if q == 0:
                        ops.append(["type3", 1])
                        break
                    if q == 1:
                        ops.append(["stored", 1, [rng.randrange(256) for _ in range(rng.randint(0, 9))],
                                    rng.choice([1, 2, 255, 256, 32768, 65535])])
                        break
                    ops.append(["fix", 1])
                    if n < 32768 and q == 2:
                        ops.append(["tokens", [[rng.randint(3, 258), rng.randint(n + 1, 32768)]]])
                    else:
                        ops.append(["tokens", [[1]] * 3 + [[-1, rng.choice([286, 287, 30, 31])]]])
                    break
                if r < .2:
                    by = [rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 200]))]
                    n += len(by)
                    ops.append(["stored", f, by, 0])
                    continue
                t, n = self.toks(rng, n, rng.choice([0, 1, 5, 40]), alpha)
                ops.append(["fix", f] if r < .5 else df.dyn(f, t, rng))
                if t:
                    ops.append(["tokens", t])
                ops.append(["close"])
            out.append(self.scen(ops, rng, 2))
        # every code of either alphabet in one fixed and one dynamic block
        for fx in (0, 1):
            base = [rng.randrange(256) for _ in range(33000)]
            t = [[c] for c in range(256)]
            t += [[b + e, 7] for b, x in zip(df.LB, df.LX) for e in {0, (1 << x) - 1} if b + e < 258 or b == 258]
            t += [[3, b + e] for b, x in zip(df.DB, df.DX) for e in {0, (1 << x) - 1}]
            ops = [["header", 120, 218], ["stored", 0, base, 0],
                   ["fix", 1] if fx else df.dyn(1, t, rng), ["tokens", t], ["close"]]
            out.append(self.scen(ops, rng))
        # long outputs: far references, growth of the buffer
        for k in range(3 if not big else 20):
            t, n = self.toks(rng, 40000, 60, list(range(256)))
            ops = [["header", 120, 156], ["stored", 0, [rng.randrange(256) for _ in range(40000)], 0],
                   ["fix", 0] if k % 2 else df.dyn(0, t, rng), ["tokens", t], ["close"],
                   ["stored", 1, [1] * rng.choice([0, 65535]), 0]]
            out.append(self.scen(ops, rng))
        for k in (1, 30, 200):
            t = [[97]] + [[258, 1]] * k
            ops = [["header", 120, 156], ["fix", 1], ["tokens", t], ["close"]]
            out.append(self.scen(ops, rng))
        # streams written by another program
        for _ in range(40 if not big else 600):
            n = rng.choice([0, 1, 10, 300, 1500])
            kind = rng.randrange(4)
            if kind == 0:
                data = bytes(rng.randrange(256) for _ in range(n))
            elif kind == 1:
                data = bytes(rng.choice(b"abc") for _ in range(n))
            elif kind == 2:
                w = [bytes(rng.randrange(97, 123) for _ in range(rng.randint(1, 9))) for _ in range(30)]
                data = b" ".join(rng.choice(w) for _ in range(n // 5))
            else:
                data = bytes([rng.choice([0, 255])]) * n + bytes(rng.randrange(256) for _ in range(n // 3))
            c = zlib.compressobj(rng.randint(0, 9), zlib.DEFLATED, 15, rng.choice([1, 8, 9]),
                                 rng.choice([zlib.Z_DEFAULT_STRATEGY, zlib.Z_FIXED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE,
                                             zlib.Z_FILTERED]))
            z = b""
            for i in range(0, len(data) + 1, 400):
                z += c.compress(data[i:i + 400])
                if rng.random() < .4:
                    z += c.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_PARTIAL_FLUSH]))
            z += c.flush()
            ops, used = df.parse(z)
            assert df.write(ops) == list(z[:used]), "parse"
            out.append(self.scen(ops, rng, 2))
        return out
