from vt.core import Prop, line

ALPHA = [97, 98, 65, 66, 48, 32, 44, 59, 228, 0x4e2d, 0xffff]


class PROP(Prop):
    id = "C01"
    driver = "lists"
    trace_module = "ListsTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCLists", "MCLists_q.cfg"), ("MCLists", "MCLists_two.cfg")],
          "thorough": [("MCLists", "MCLists_t.cfg"), ("MCLists", "MCLists_two.cfg")]}
    walk_len = 150

    def text(self, rng, n=None):
        return [rng.choice(ALPHA) for _ in range(rng.choice([0, 1, 1, 2, 3, 8, 20]) if n is None else n)]

    def gen(self, rng, tier):
        out = []
        n = 1 if tier == "quick" else 15
        for _ in range(120 * n):
            s = ["new"]
            size = [0, 0, 0]
            pool = [self.text(rng) for _ in range(rng.choice([2, 6, 20]))]
            grow = rng.choice([0.4, 0.7])
            for _ in range(rng.choice([20, 80])):
                v = rng.randint(1, 2)
                t = rng.choice(pool)
                i = rng.choice([0, size[v] - 1, size[v], -1, rng.randint(0, max(1, size[v]))])
                r = rng.random()
                if r < grow and size[v] < 40:
                    s.append(line(rng.choice(["append", "shl"]), v, t))
                    size[v] += 1
                    continue
                op = rng.choice(["remove", "set", "setidx", "get", "getidx", "sort", "assign", "copy", "reserve",
                                 "contains", "join", "make", "makeone", "clear"])
                if op in ("remove", "contains", "makeone"):
                    s.append(line(op, v, t))
                elif op in ("set", "setidx"):
                    s.append(line(op, v, i, t))
                elif op in ("get", "getidx"):
                    s.append(line(op, v, i))
                elif op in ("assign", "copy"):
                    w = rng.randint(1, 2)
                    if op == "copy" and v == w:
                        continue
                    size[v] = size[w]
                    s.append(line(op, v, w))
                elif op == "reserve":
                    s.append(line(op, v, rng.randint(0, 30)))
                elif op == "join":
                    s.append(line(op, v, 44))
                elif op == "make":
                    size[v] = rng.choice([0, 1, 3, 8, 17])
                    s.append(line(op, v, size[v]))
                elif op == "sort" or rng.random() < 0.15:
                    size[v] = size[v] if op == "sort" else 0
                    s.append(line(op, v))
            out.append(s)
        for _ in range(60 * n):
            s = ["new"]
            size = {3: 0, 4: 0}
            for _ in range(40):
                v = rng.randint(3, 4)
                i = rng.choice([0, size[v] - 1, size[v], -1, rng.randint(0, max(1, size[v]))])
                op = rng.choice(["make"] + ["set", "setidx"] * 4 + ["get", "getidx", "sort", "assign", "copy"])
                if op == "make":
                    size[v] = rng.choice([0, 1, 2, 5, 12])
                    s.append(line(op, v, size[v]))
                elif op in ("set", "setidx"):
                    s.append(line(op, v, i, self.text(rng)))
                elif op in ("get", "getidx"):
                    s.append(line(op, v, i))
                else:
                    s.append(line(op, v, *([v] if op in ("assign", "copy") else [])))
            out.append(s)
        for _ in range(30 * n):
            s = ["new"]
            k = 0
            x = lambda: rng.choice([0, 1, -1, 5, -5, rng.randint(-9, 9), rng.randint(-60000, 60000)])
            for _ in range(30):
                op = rng.choice(["floats", "fset", "fset", "fsetidx", "fsort", "fassign", "fcopy"])
                if op == "floats":
                    k = rng.choice([0, 1, 2, 3, 5, 9])
                    s.append(line(op, [x() for _ in range(k)]))
                elif op in ("fset", "fsetidx"):
                    if k:
                        s.append(line(op, rng.randrange(k), x()))
                else:
                    s.append(op)
            out.append(s)
        for _ in range(150 * n):
            s = ["new"]
            for _ in range(6):
                t = [rng.choice([97, 98, 44, 59, 32]) for _ in range(rng.choice([0, 1, 5, 17, 40]))]
                dl = rng.choice([[44], [44, 59], [44, 59, 32], [], [0x4e2d], [44, 44]])
                s.append(line("tok", t, dl, rng.randint(0, 1)))
                for _ in range(rng.randint(0, len(t) + 3)):
                    s.append(rng.choice(["more", "take", "take"]))
                s += ["more", "more"]
                s.append(line("split", 1, t, rng.choice([44, 59, 0x4e2d])))
                s.append(line("join", 1, 44))
            out.append(s)
        # more elements than two bytes count
        for _ in range(n):
            k = 65536 + rng.randint(0, 9)
            pool = [[97], [98, 98], [0x4e2d]]
            s = [line("append", 1, rng.choice(pool)) for _ in range(3)] + \
                [line(rng.choice(["set", "setidx"]), 1, i, rng.choice(pool)) for i in (1, k - 1, k, 65535, 65536)] + \
                [line(rng.choice(["get", "getidx"]), 1, i) for i in (0, k - 1, k, k + 5)]
            out.append(["new", line("make", 1, k)] + s + [line("contains", 1, pool[0]), line("copy", 2, 1), line("sort", 2), line("join", 1, 44),
                        line("remove", 1, pool[0]), line("assign", 2, 1), line("clear", 1), line("append", 1, pool[1])])
            out.append(["new", line("make", 3, k)] + [line("set", 3, i, rng.choice(pool)) for i in (1, k - 1, k, 65535)] +
                       [line("get", 3, k - 1), line("sort", 3), line("get", 3, k - 1), line("copy", 3, 3)])
            x = [rng.choice([0, 1, -7, 60000]) for _ in range(k)]
            out.append(["new", line("floats", x), line("fset", k - 1, -3), line("fsetidx", 65535, 5), "fsort", "fcopy", line("fset", 0, 8)])
        return out
