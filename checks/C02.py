from vt.core import Prop, line


class PROP(Prop):
    id = "C02"
    driver = "bytes"
    trace_module = "BytesTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCBytes", "MCBytes_q.cfg"), ("MCBytes", "MCBytes_one.cfg")],
          "thorough": [("MCBytes", "MCBytes_t.cfg"), ("MCBytes", "MCBytes_one.cfg")]}
    walk_len = 150
    assumptions = ("positions are within the array where the documentation asks for it; a splice reads within its "
                   "source; pop and top are called on stacks with elements",
                   "bytes that come back when an array grows again within its buffer are not specified")

    def gen(self, rng, tier):
        out = []
        for _ in range(200 if tier == "quick" else 3000):
            s = ["new"]
            sz = [0] * 4
            depth = 0
            by = lambda: rng.choice([0, 1, 65, 127, 128, 200, 255, rng.randint(0, 255)])
            for _ in range(rng.choice([30, 100])):
                v, w = rng.randint(1, 3), rng.randint(1, 3)
                op = rng.choice(["make", "makes", "makez", "makel", "makenull", "filled", "assign", "copy", "set", "setidx",
                                 "setptr", "get", "getidx", "fill", "swap", "splice", "splice", "resize", "resize",
                                 "sort", "equal", "push", "push", "push", "pop", "top", "settop", "nth", "reverse"])
                if op in ("make", "makes", "makez", "makel"):
                    t = [by() for _ in range(rng.choice([1, 2, 3, 7] if op == "makel" else [0, 1, 2, 7, 8, 9, 30]))]
                    sz[v] = len(t) if op != "makez" else (t + [0]).index(0)
                    s.append(line(op, v, t))
                elif op == "makenull":
                    sz[v] = 0
                    s.append(line(op, v))
                elif op == "filled":
                    sz[v] = rng.choice([0, 1, 5, 16])
                    s.append(line(op, v, sz[v], by()))
                elif op in ("assign", "copy"):
                    if op == "copy" and v == w:
                        continue
                    sz[v] = sz[w]
                    s.append(line(op, v, w))
                elif op in ("set", "setidx", "setptr", "get", "getidx"):
                    if sz[v]:
                        i = rng.choice([0, sz[v] - 1, rng.randrange(sz[v])])
                        s.append(line(op, v, i, *([by()] if "set" in op else [])))
                elif op == "fill":
                    if rng.random() < 0.3:
                        s.append(line(op, v, by()))
                elif op == "swap":
                    s.append(line(op, v, by(), by()))
                elif op == "splice":
                    t = rng.randint(0, sz[v])
                    f = rng.randint(0, sz[w])
                    if v == w and t > f:
                        t, f = f, t
                    s.append(line(op, v, t, f, w, rng.randint(0, sz[w] - f)))
                elif op == "resize":
                    sz[v] = rng.choice([0, 1, max(0, sz[v] - 1), sz[v], sz[v] + 1, sz[v] + 9, rng.randint(0, 40)])
                    s.append(line(op, v, sz[v]))
                elif op == "sort":
                    s.append(line(op, v))
                elif op == "equal":
                    s.append(line(op, v, w))
                elif op == "push":
                    depth += 1
                    s.append(line(op, rng.randint(-5, 1000)))
                elif op in ("pop", "top", "settop"):
                    if depth:
                        depth -= op == "pop"
                        s.append(line(op, *([7] if op == "settop" else [])))
                elif op == "nth":
                    s.append(line(op, rng.randint(2, 3)))
                elif op == "reverse":
                    if rng.random() < 0.1:
                        depth = 0
                        op = "clearstack"
                    s.append(op)
            out.append(s)
        # more bytes than two bytes count
        for _ in range(2 if tier == "quick" else 20):
            k = 65536 + rng.randint(0, 400)
            t = [rng.choice([0, 0, 1, 127, 128, 255]) for _ in range(k)]
            m = rng.randint(1, 300)
            s = ["new", line("make", 1, t), line("assign", 2, 1), line("filled", 3, k + m, 9), line("splice", 3, k - m, k - m, 1, m),
                 line("splice", 3, 5, 65536 - m, 1, m), line("set", 2, 65535, 77), line("set", 2, k - 1, 78), line("get", 2, 65535),
                 line("getidx", 2, k - 1), line("equal", 1, 2), line("resize", 2, 65536), line("resize", 2, 65535), line("resize", 2, k + m),
                 line("swap", 1, 0, 200), line("sort", 1), line("fill", 3, 1), line("copy", 1, 3), line("equal", 1, 3), line("resize", 1, 65537)]
            out.append(s)
        return out
