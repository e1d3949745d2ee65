from vt.core import Prop, line

SEQ = ("sequentially consistent memory: another thread is scheduled between any two accesses, but the hardware does not reorder them",)


def body(rng, w, depth=1):
    """The calls of run(): nobody sleeps holding the thread's own lock."""
    p = []
    for _ in range(rng.randint(0, 3)):
        c = rng.choice(["sleep", "nap", "alive", "tlock", "loop", "lock", "wake", "name"])
        if c == "nap":
            p.append(["nap", rng.choice([0, 1, 10, 1500, 2600, 60000])])
        elif c == "tlock":
            p += [["tlock"], ["tunlock"]]
        elif c == "lock":
            p += [["lock", 1], ["unlock", 1]]
        elif c == "name":
            p.append([c, w])
        elif c in ("alive", "wake"):
            p.append([c, 1])
        elif c == "loop":
            if depth:
                p.append(["loop", [["nap", rng.choice([5, 20])] if rng.random() < .5 else ["sleep"]] + ([["tlock"], ["tunlock"]] if rng.random() < .3 else [])])
        else:
            p.append(["sleep"])
    return p


class PROP(Prop):
    id = "M02"
    driver = "conc"
    flavour = "sched"
    trace_module = "ThrTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCThr", "MCThr_run.cfg"), ("MCThr", "MCThr_life.cfg")],
          "thorough": [("MCThr", "MCThr_runt.cfg"), ("MCThr", "MCThr_lifet.cfg")]}
    walk_len = 8
    assumptions = SEQ + ("a thread object is started only when it does not run, and interrupted by one thread at a time",)

    def gen(self, rng, tier):
        out = []
        for _ in range(40 if tier == "quick" else 1200):
            nw = rng.choice([1, 1, 2])
            bodies = [body(rng, w + 1) for w in range(nw)]
            main, run = [], [False] * nw
            for _ in range(rng.randint(1, 6)):
                w = rng.randrange(nw)
                c = rng.choice(["start", "start", "int", "wake", "alive", "name"])
                if c == "start" and sum(1 for m in main if m[0] == "start") >= 2 * nw:
                    continue
                if c == "start" and run[w]:
                    c = "int"
                if c in ("start", "int"):
                    run[w] = c == "start"
                main.append([c, w + 1])
            for w in range(nw):
                if run[w] and any(b[0] == "loop" for b in bodies[w]):
                    main.append(["int", w + 1])
            plain = [[[rng.choice(["wake", "wake", "alive"]), rng.randint(1, nw)] for _ in range(rng.randint(1, 2))]
                     for _ in range(rng.choice([0, 0, 1, 1, 2]))]
            out.append(["new", line("threads", main, bodies, plain, rng.choice([1, 2, 2, 3]), 300 if tier == "quick" else 2500)])
        return out
