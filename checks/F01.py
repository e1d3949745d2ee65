from vt.core import Prop, line


class PROP(Prop):
    id = "F01"
    driver = "streams"
    trace_module = "StreamsTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCStreams", "MCStreams_f.cfg"), ("MCStreams", "MCStreams_m.cfg"), ("MCStreams", "MCStreams_ff.cfg")],
          "thorough": [("MCStreams", "MCStreams_ft.cfg"), ("MCStreams", "MCStreams_m.cfg"), ("MCStreams", "MCStreams_ff.cfg")]}
    walk_len = 200
    walk_limit = 6000
    assumptions = ("between reading and writing a file stream there is a seek, as C streams demand; a file is not written "
                   "through one stream while another one has it open",)

    def gen(self, rng, tier):
        out = []
        for _ in range(120 if tier == "quick" else 3000):
            s = ["new"]
            st = {}
            by = lambda n: [rng.choice([0, 10, 13, 26, 255, rng.randrange(256)]) for _ in range(n)]
            for _ in range(rng.choice([40, 120])):
                v = rng.randint(1, 3)
                t = st.get(v)
                if t is None or (t[0] == "mem" and rng.random() < .05) or (t[0] == "file" and not t[2] and rng.random() < .05):
                    if rng.random() < .4:
                        b = by(rng.choice([0, 1, 10, 100]))
                        st[v] = ["mem", 0, "rw", "", len(b)]
                        s.append(line("mem", v, b))
                    else:
                        st[v] = ["file", rng.randint(1, 2), "", "", 0]
                        s.append(line("file", v, st[v][1]))
                    continue
                users = [u[2] for k, u in st.items() if k != v and u[0] == "file" and u[1] == t[1] and u[2]]
                if not t[2]:
                    op = rng.choice(["open", "open", "open", "create", "size", "close"])
                    if op == "open":
                        m = rng.choice(["r", "rw", "rw", "w"])
                        if (m == "r" and any(x != "r" for x in users)) or (m != "r" and users):
                            continue
                        s.append(line("open", v, m))
                        # whether it succeeds depends on the file: create it first if it is to be used
                        if m != "w":
                            s.insert(len(s) - 1, line("create", v))
                        t[2], t[3] = m, ""
                    elif op == "size":
                        if any(x != "r" for x in users):
                            continue
                        s.append(line("size", v))
                    else:
                        s.append(line(op, v))
                    continue
                op = rng.choice(["read", "readfully", "write", "write", "writetext", "seek", "seek", "move", "close", "size", "open"])
                if op in ("read", "readfully"):
                    if t[0] == "file" and t[3] == "write":
                        s.append(line("move", v, 0) if rng.random() < .5 else line("seek", v, rng.choice([0, 1, 5, 20])))
                    s.append(line(op, v, rng.choice([0, 1, 2, 7, 50, 300])))
                    t[3] = "read"
                elif op in ("write", "writetext"):
                    if t[0] == "file" and t[3] == "read":
                        s.append(line("seek", v, rng.choice([0, 1, 5, 20, 60])))
                    if op == "write":
                        s.append(line("write", v, by(rng.choice([0, 1, 2, 9, 40]))))
                    else:
                        s.append(line("writetext", v, [rng.choice([65, 10, 228, 8364]) for _ in range(rng.choice([0, 1, 5]))]))
                    t[3] = "write"
                elif op in ("seek", "move"):
                    s.append(line(op, v, rng.choice([0, 0, 1, 2, 5, 9, 20, 100, -1, -2, -5, t[4], t[4] + 1])))
                    # a refused move does not count as one
                    s.append(line("seek", v, rng.choice([0, 1, 3])))
                    t[3] = ""
                elif op == "close":
                    s.append(line("close", v))
                    t[2] = "" if t[0] == "file" else "rw"
                    t[3] = ""
                elif op == "size" and (t[0] == "mem" or t[2] == "r"):
                    s.append(line("size", v))
                elif op == "open" and t[0] == "mem":
                    s.append(line("open", v, "r"))
            out.append(s)
        # beyond the buffers of the C library
        for n in (4095, 4096, 4097, 9000, 65536 + rng.randint(0, 99)):
            b = [rng.randrange(256) for _ in range(n)]
            out.append(["new", line("file", 1, 1), line("open", 1, "w"), line("write", 1, b), line("write", 1, [1, 2, 3]), line("close", 1),
                        line("size", 1), line("open", 1, "r"), line("read", 1, 10), line("readfully", 1, n), line("read", 1, 10),
                        line("close", 1), line("open", 1, "rw"), line("seek", 1, 4000), line("write", 1, [9] * 200), line("seek", 1, 3990),
                        line("readfully", 1, 300), line("seek", 1, n + 50), line("write", 1, [5]), line("close", 1), line("size", 1)])
        # beyond what two bytes count
        for _ in range(1 if tier == "quick" else 8):
            n = 65536 + rng.randint(0, 300)
            b = [rng.randrange(256) for _ in range(n)]
            s = [line("seek", 1, n - 100), line("read", 1, 50), line("move", 1, -65536), line("readfully", 1, 65536), line("seek", 1, 65530),
                 line("write", 1, by(20)), line("seek", 1, 65536), line("readfully", 1, 500), line("seek", 1, 3), line("write", 1, b[:65530]),
                 line("read", 1, 9), line("size", 1), line("seek", 1, 0), line("read", 1, n + 1)]
            out.append(["new", line("mem", 1, b)] + s)
            out.append(["new", line("file", 1, 1), line("create", 1), line("open", 1, "rw"), line("write", 1, b), line("seek", 1, 70000),
                        line("write", 1, [1, 2]), line("close", 1), line("size", 1), line("open", 1, "r"), line("seek", 1, 65530), line("read", 1, 12),
                        line("move", 1, 5), line("read", 1, 2), line("seek", 1, 69998), line("read", 1, 9), line("move", 1, -65537), line("read", 1, 3),
                        line("close", 1)])
        return out
