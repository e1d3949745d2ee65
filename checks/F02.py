import os

from vt.core import Prop, line

NAMES = [[97], [98], [99, 46, 116], [46, 104], [97, 98], [228], [8364, 46], [98, 98, 46, 120, 46, 121], [65], [45], [32]]


class PROP(Prop):
    id = "F02"
    driver = "files"
    trace_module = "FilesTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCFiles", "MCFiles_fs.cfg"), ("MCFiles", "MCFiles_text.cfg")],
          "thorough": [("MCFiles", "MCFiles_fst.cfg"), ("MCFiles", "MCFiles_textt.cfg")]}
    walk_len = 150
    walk_limit = 6000
    assumptions = ("the driver runs as an unprivileged user in a scratch directory; one process changes the tree",)

    def prepare(self, scratch):
        if os.geteuid() == 0:
            os.chmod(os.path.dirname(scratch), 0o711)
            os.chown(scratch, 65534, 65534)
        return {}

    def gen(self, rng, tier):
        out = []

        def text(c, end=True):
            t = []
            for i, n in enumerate(c):
                if i:
                    t += [47] * rng.choice([1, 1, 1, 2])
                t += n
            return t + [47] * (rng.choice([0, 0, 0, 1]) if end else 0)
        # the texts of paths
        for _ in range(4 if tier == "quick" else 60):
            s = ["new"]
            for _ in range(60):
                if rng.random() < .15:
                    # long ones
                    e = rng.choice([97, 98, 228])
                    a, b = [], rng.choice([[98, 46, 99], [e] * rng.choice([100, 254, 255, 256])])
                    while len(a) < rng.choice([200, 254, 255, 256, 400, 1100]):
                        a += [e] * rng.choice([1, 3, 9, 60, 250]) + rng.choice([[47], [46], [47, 47]])
                    s += [line("path", a), line("path", a + b), line("join", a, b), line("joinfile", a, b), line("hidden", a + b)]
                    continue
                al = rng.choice([[47, 97], [47, 46, 97], [47, 46, 97, 98, 228, 8364, 0xD83D, 0xDE00, 32, 92, 58]])
                w = lambda n: [rng.choice(al) for _ in range(rng.randint(0, n))]
                a, b = w(12), w(6)
                s.append(line("path", a))
                s.append(line("join", a, b))
                s.append(line("joinfile", a, b))
                if any(x != 47 for x in a):
                    s.append(line("hidden", a))
            out.append(s)
        for _ in range(60 if tier == "quick" else 1500):
            s = ["new"]
            fs = {}
            names = rng.sample(NAMES, rng.choice([2, 3, 5]))
            if rng.random() < .15:
                names = [[97] * 120, [98] * 254 + [46], [99] * 250 + [46, 120], [100]]
            key = lambda c: tuple(tuple(x) for x in c)
            kind = lambda k: "d" if k == () else fs[k][0] if k in fs else ""

            def real(done, rest, n=20):
                while rest:
                    nxt = done + rest[:1]
                    if kind(nxt) == "l":
                        if n == 0:
                            return ((0,),)
                        done, rest, n = (), fs[nxt][1] + rest[1:], n - 1
                    else:
                        done, rest = nxt, rest[1:]
                return done

            def place(c):
                k = key(c)
                return real((), k[:-1]) + k[-1:]

            def can(k):
                return kind(k) == "" and all(kind(k[:i]) == "d" for i in range(len(k)))
            for _ in range(rng.choice([40, 120])):
                # mostly below what is there
                base = [list(x) for x in rng.choice([()] + list(fs))]
                if rng.random() < .3:
                    base = []
                c = base[:4] + [rng.choice(names) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
                if not c:
                    continue
                k, t = place(c), text(c)
                z = real((), k)
                op = rng.choice(["create", "mkdir", "mkdir", "mknode", "mknode", "remove", "rename", "about", "size", "list",
                                 "open", "mtime", "compare", "tags", "addtag", "addtag", "deltag"])
                if op == "create":
                    if kind(k) == "l" and kind(z) == "":
                        continue
                    s.append(line("create", t))
                    if can(k):
                        fs[k] = ("f",)
                elif op == "mkdir":
                    s.append(line("mkdir", t))
                    if can(k):
                        fs[k] = ("d",)
                elif op == "mknode":
                    if not can(k):
                        continue
                    n = rng.choice("ffdlp")
                    v = [n]
                    fs[k] = (n,)
                    if n == "f":
                        v.append([rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 50]))])
                    elif n == "l":
                        tg = rng.choice([x for x in fs])
                        if rng.random() < .2:
                            tg = tg + ((122,),)
                        v.append([list(x) for x in tg])
                        fs[k] = ("l", tg)
                    s.append(line("mknode", t, v))
                elif op == "remove":
                    s.append(line("remove", t))
                    if k in fs and not (kind(k) == "d" and any(len(x) > len(k) and x[:len(k)] == k for x in fs)):
                        del fs[k]
                elif op == "rename":
                    d = [list(x) for x in rng.choice([()] + list(fs))][:4]
                    if rng.random() < .7:
                        d = d + [rng.choice(names)]
                    if not d:
                        continue
                    kd = place(d)
                    s.append(line("rename", t, text(d, kind(k) == "d")))
                    up = all(kind(kd[:i]) == "d" for i in range(len(kd)))
                    ok = k in fs and up and (k == kd or (kd[:len(k)] != k and (
                        kd not in fs or (kind(k) == "d" and kind(kd) == "d" and not any(
                            len(x) > len(kd) and x[:len(kd)] == kd for x in fs)) or (kind(k) != "d" and kind(kd) != "d"))))
                    if ok and k != kd:
                        # a place above the file itself cannot be replaced: it is not empty
                        fs2 = {}
                        for x, v in fs.items():
                            if x[:len(k)] == k:
                                fs2[kd + x[len(k):]] = v
                            elif x != kd:
                                fs2.setdefault(x, v)
                        fs = fs2
                elif op == "open":
                    if kind(z) not in ("", "f") or (0,) in z:
                        continue
                    m = rng.choice(["r", "rw", "w"])
                    s.append(line("open", t, m))
                    if m == "w" and can(z):
                        fs[z] = ("f",)
                elif op in ("mtime", "tags", "addtag", "deltag"):
                    if kind(z) not in ("f", "d"):
                        continue
                    if op == "mtime":
                        if kind(k) == "l":
                            continue
                        s.append(line("mtime", t, rng.choice([0, 1, 86399, 951782400, 1700000000, 2147483646, -1, -86400, -951782400]),
                                      rng.choice([0, 1, 499, 500, 999])))
                    elif op == "tags":
                        s.append(line("tags", t))
                    else:
                        s.append(line(op, t, rng.choice([[97], [98], [97, 98], [228, 32], [120] * 300])))
                elif op == "compare":
                    d = [rng.choice(names) for _ in range(rng.choice([1, 2]))]
                    s.append(line("compare", t, text(d)))
                else:
                    s.append(line(op, t))
            out.append(s)
        # more tags than the usual buffer holds
        s = ["new", line("create", [97])]
        for i in range(30):
            s.append(line("addtag", [97], [97 + i % 26] * (180 + i)))
        for i in range(0, 30, 3):
            s.append(line("deltag", [97], [97 + i % 26] * (180 + i)))
        s += [line("rename", [97], [98]), line("tags", [98])]
        out.append(s)
        # a long list
        s = ["new", line("mkdir", [100])]
        for i in range(300):
            s.append(line("create", [100, 47] + [ord(x) for x in "f%d" % i]))
        s = s[:2] + [line("mknode", [100, 47] + [ord(x) for x in "f%d" % i], ["f", []]) for i in range(300)] + [line("list", [100])]
        out.append(s)
        return out
