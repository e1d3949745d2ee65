from vt.core import Prop, line
from checks.M02 import SEQ


def prog(rng, nm, calls):
    """Locks are given back and taken in order; nobody sleeps holding one."""
    p, held = [], []
    for _ in range(calls):
        c = rng.choice(["lock", "lock", "unlock", "unlock", "msleep", "mwake"])
        if c == "lock":
            free = [m for m in range(1, nm + 1) if m > max(held, default=0)]
            if free:
                m = rng.choice(free)
                held.append(m)
                p.append(["lock", m])
        elif c == "unlock":
            if held:
                m = rng.choice(held)
                held.remove(m)
                p.append(["unlock", m])
        elif c == "mwake" or not held:
            p.append([c, rng.randint(1, nm)])
    rng.shuffle(held)
    return p + [["unlock", m] for m in held]


class PROP(Prop):
    id = "M03"
    driver = "conc"
    flavour = "sched"
    trace_module = "ThrTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCThr", "MCThr_runm.cfg"), ("MCThr", "MCThr_mutex.cfg")],
          "thorough": [("MCThr", "MCThr_runt.cfg"), ("MCThr", "MCThr_mutext.cfg")]}
    walk_len = 8
    assumptions = SEQ + ("a mutex is given back by the thread that holds it, mutexes are taken in one order, and nobody sleeps holding one",)

    def gen(self, rng, tier):
        out = []
        for _ in range(40 if tier == "quick" else 1200):
            nm = rng.choice([1, 1, 2, 3])
            plain = [prog(rng, nm, rng.randint(1, 5)) for _ in range(rng.choice([2, 2, 3]))]
            main = prog(rng, nm, rng.randint(0, 3)) if rng.random() < .4 else []
            main = [m for m in main if m[0] != "msleep"]
            out.append(["new", line("threads", main, [], plain, rng.choice([1, 2, 2, 3]), 300 if tier == "quick" else 2500)])
        return out
