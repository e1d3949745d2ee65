"""Writes and takes apart compressed streams as the operations of spec/Deflate.tla."""
LB = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258]
LX = [0] * 8 + [1] * 4 + [2] * 4 + [3] * 4 + [4] * 4 + [5] * 4 + [0]
DB = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097,
      6145, 8193, 12289, 16385, 24577]
DX = [0, 0, 0, 0] + [k // 2 for k in range(2, 28)]
ORDER = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]
FIXLL = [8] * 144 + [9] * 112 + [7] * 24 + [8] * 8
FIXDL = [5] * 32


def codes(lens):
    """symbol -> (code, length)"""
    cnt = [0] * 17
    for n in lens:
        cnt[n] += 1
    cnt[0] = 0
    nxt, c = [0] * 17, 0
    for n in range(1, 16):
        c = (c + cnt[n - 1]) << 1
        nxt[n] = c
    out = {}
    for s, n in enumerate(lens):
        if n:
            out[s] = (nxt[n], n)
            nxt[n] += 1
    return out


def slot(base, v):
    return max(k for k in range(len(base)) if base[k] <= v)


class Writer:
    def __init__(self):
        self.bits = []
        self.ll = self.dl = None

    def lsb(self, v, n):
        self.bits += [(v >> k) & 1 for k in range(n)]

    def code(self, tab, s):
        v, n = tab[s]
        self.bits += [(v >> (n - 1 - k)) & 1 for k in range(n)]

    def pad(self):
        while len(self.bits) % 8:
            self.bits.append(0)

    def apply(self, o):
        if o[0] == "header":
            self.lsb(o[1], 8)
            self.lsb(o[2], 8)
        elif o[0] == "stored":
            self.lsb(o[1], 1)
            self.lsb(0, 2)
            self.pad()
            self.lsb(len(o[2]), 16)
            self.lsb((65535 - len(o[2]) + o[3]) % 65536, 16)
            for b in o[2]:
                self.lsb(b, 8)
        elif o[0] == "fix":
            self.lsb(o[1], 1)
            self.lsb(1, 2)
            self.ll, self.dl = codes(FIXLL), codes(FIXDL)
        elif o[0] == "type3":
            self.lsb(o[1], 1)
            self.lsb(3, 2)
        elif o[0] == "dyn":
            _, f, hlit, hdist, hclen, cl, xs = o
            self.lsb(f, 1)
            self.lsb(2, 2)
            self.lsb(hlit - 257, 5)
            self.lsb(hdist - 1, 5)
            self.lsb(hclen - 4, 4)
            for k in range(hclen):
                self.lsb(cl[ORDER[k]], 3)
            tab = codes(cl)
            al = []
            for x in xs:
                self.code(tab, x[0])
                if len(x) == 1:
                    al.append(x[0])
                else:
                    self.lsb(x[1] - {16: 3, 17: 3, 18: 11}[x[0]], {16: 2, 17: 3, 18: 7}[x[0]])
                    al += [al[-1] if x[0] == 16 else 0] * x[1]
            self.ll, self.dl = codes(al[:hlit]), codes(al[hlit:])
        elif o[0] == "tokens":
            for x in o[1]:
                if len(x) == 1:
                    self.code(self.ll, x[0])
                elif x[0] < 0:
                    if x[1] >= 286:
                        self.code(self.ll, x[1])
                    else:
                        self.code(self.ll, 257)
                        self.code(self.dl, x[1])
                    return
                else:
                    a, b = slot(LB, x[0]), slot(DB, x[1])
                    self.code(self.ll, 257 + a)
                    self.lsb(x[0] - LB[a], LX[a])
                    self.code(self.dl, b)
                    self.lsb(x[1] - DB[b], DX[b])
        elif o[0] == "close":
            self.code(self.ll, 256)

    def stream(self):
        b = self.bits + [0] * (-len(self.bits) % 8)
        return [sum(b[i + k] << k for k in range(8)) for i in range(0, len(b), 8)]


def write(ops):
    w = Writer()
    for o in ops:
        w.apply(o)
    return w.stream()


class Bad(Exception):
    pass


class Reader:
    def __init__(self, data):
        self.d = data
        self.p = 0

    def bit(self):
        if self.p >> 3 >= len(self.d):
            raise Bad("end")
        b = (self.d[self.p >> 3] >> (self.p & 7)) & 1
        self.p += 1
        return b

    def lsb(self, n):
        return sum(self.bit() << k for k in range(n))

    def sym(self, inv):
        v = n = 0
        while n < 16:
            v, n = v << 1 | self.bit(), n + 1
            if (v, n) in inv:
                return inv[v, n]
        raise Bad("code")


def parse(data, header=True):
    """The operations that write this stream, and the number of bytes they take."""
    r = Reader(data)
    ops = []
    if header:
        ops.append(["header", r.lsb(8), r.lsb(8)])
    while True:
        f, t = r.bit(), r.lsb(2)
        if t == 0:
            r.p = (r.p + 7) // 8 * 8
            n, c = r.lsb(16), r.lsb(16)
            if n + c != 65535:
                raise Bad("length")
            ops.append(["stored", f, [r.lsb(8) for _ in range(n)], 0])
        elif t == 3:
            raise Bad("type")
        else:
            if t == 1:
                ll, dl = FIXLL, FIXDL
                ops.append(["fix", f])
            else:
                hlit, hdist, hclen = r.lsb(5) + 257, r.lsb(5) + 1, r.lsb(4) + 4
                cl = [0] * 19
                for k in range(hclen):
                    cl[ORDER[k]] = r.lsb(3)
                inv = {v: s for s, v in codes(cl).items()}
                al, xs = [], []
                while len(al) < hlit + hdist:
                    s = r.sym(inv)
                    if s < 16:
                        al.append(s)
                        xs.append([s])
                    else:
                        n = r.lsb({16: 2, 17: 3, 18: 7}[s]) + {16: 3, 17: 3, 18: 11}[s]
                        xs.append([s, n])
                        al += [al[-1] if s == 16 else 0] * n
                ll, dl = al[:hlit], al[hlit:]
                ops.append(["dyn", f, hlit, hdist, hclen, cl, xs])
            il, idd = ({v: s for s, v in codes(x).items()} for x in (ll, dl))
            toks = []
            while True:
                s = r.sym(il)
                if s == 256:
                    break
                if s < 256:
                    toks.append([s])
                    continue
                if s > 285:
                    raise Bad("length code")
                n = LB[s - 257] + r.lsb(LX[s - 257])
                d = r.sym(idd)
                if d > 29:
                    raise Bad("distance code")
                toks.append([n, DB[d] + r.lsb(DX[d])])
            if toks:
                ops.append(["tokens", toks])
            ops.append(["close"])
        if f:
            return ops, (r.p + 7) // 8


def lengths(freq, limit, rng=None):
    """Code lengths (a complete prefix code of at most limit bits) for the symbols used."""
    import heapq
    used = [s for s, f in enumerate(freq) if f]
    if len(used) < 2:
        return None
    fr = {s: freq[s] for s in used}
    while True:
        h = [(f, s, (s,)) for s, f in fr.items()]
        heapq.heapify(h)
        out = dict.fromkeys(used, 0)
        k = 1000
        while len(h) > 1:
            a, b = heapq.heappop(h), heapq.heappop(h)
            for s in a[2] + b[2]:
                out[s] += 1
            k += 1
            heapq.heappush(h, (a[0] + b[0], k, a[2] + b[2]))
        if max(out.values()) <= limit:
            return [out.get(s, 0) for s in range(len(freq))]
        fr = {s: f // 2 + 1 for s, f in fr.items()}


def dyn(final, toks, rng, hlit=None, hdist=None, lazy=0.3):
    """A dynamic block for the tokens, its header written with random choices."""
    lf, df = [0] * 286, [0] * 30
    lf[256] = 1
    for x in toks:
        if len(x) == 1:
            lf[x[0]] += 1
        else:
            lf[257 + slot(LB, x[0])] += 1
            df[slot(DB, x[1])] += 1
    if sum(1 for f in lf if f) < 2:
        lf[rng.choice([0, 97, 255])] += 1
    r = rng.random()
    if r < .3:    # flat or skewed codes instead of fitting ones
        lf = [f and rng.choice([1, 3, 50, 4000]) for f in lf]
    ll = lengths(lf, 15)
    nd = sum(1 for f in df if f)
    if nd == 0:
        dl = [0] * 30
        if rng.random() < .3:
            dl[rng.choice([0, 3, 29])] = 1
    elif nd == 1:
        dl = [1 if f else 0 for f in df]
    else:
        dl = lengths(df, 15)
    top = max(k for k in range(286) if ll[k]) + 1
    hlit = max(257, top) if rng.random() < .6 else rng.randint(max(257, top), 286)
    top = max([k for k in range(30) if dl[k]] + [0]) + 1
    hdist = top if rng.random() < .6 else rng.randint(top, 30)
    al = ll[:hlit] + dl[:hdist]
    xs, i = [], 0
    while i < len(al):
        v = al[i]
        n = 1
        while i + n < len(al) and al[i + n] == v:
            n += 1
        if v == 0 and n >= 3 and rng.random() > lazy * .3:
            n = min(n, 138)
            if rng.random() < lazy:
                n = rng.randint(3, n)
            xs.append([17 if n < 11 else 18, n])
        elif i and al[i - 1] == v and n >= 3 and rng.random() > lazy:
            n = min(n, 6)
            xs.append([16, n])
        else:
            n = 1
            xs.append([v])
        i += n
    cf = [0] * 19
    for x in xs:
        cf[x[0]] += 1
    while sum(1 for f in cf if f) < 2:
        cf[rng.randrange(16)] += 1
    cl = lengths(cf, 7)
    top = max(k for k in range(19) if cl[ORDER[k]]) + 1
    hclen = max(4, top) if rng.random() < .6 else rng.randint(max(4, top), 19)
    return ["dyn", final, hlit, hdist, hclen, cl, xs]
