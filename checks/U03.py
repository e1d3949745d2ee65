from vt.core import line
from checks.undo_common import ALL, SETTERS, UndoProp, nvals


class PROP(UndoProp):
    id = "U03"
    trace_cfg = "UndoTrace_flags.cfg"
    flags = True
    mc = {"quick": [("MCUndo", "MCUndo_flags.cfg"), ("MCUndo", "MCUndo_doc.cfg")], "thorough": [("MCUndo", "MCUndo_flags2.cfg"), ("MCUndo", "MCUndo_doc.cfg")]}

    def gen(self, rng, tier):
        out = []
        n = 1 if tier == "quick" else 8
        for _ in range(60 * n):
            ks = rng.sample(ALL, rng.randint(1, 19))
            out.append(self.session(rng, rng.choice([40, 150]), ks, 0.15, 0.2, rng.choice([0, 0.1, 0.3])))
        for _ in range(60 * n):
            out.append(self.document(rng))
        return out

    def document(self, rng):
        """The history is paused, resumed, dropped and created anew. Only legality is tracked here."""
        ks = rng.sample(SETTERS, rng.randint(1, 5))
        s = [line("new", ks)]
        hist, level, empty = "on", 0, True
        for _ in range(80):
            o = rng.choice(["member"] * 6 + ["edit"] * 3 + ["close", "undo", "redo", "clear", "begin", "end", "mark"] + ["pause", "resume", "drop", "keep", "docregen", "docdone",
                           "docfile", "touched", "saved", "regen", "regendone", "report"])
            slot = rng.randrange(len(ks))
            f, v = 2 * slot + rng.randint(0, 1), rng.randrange(nvals(ks[slot]))
            if o in ("member", "edit", "mark"):
                if hist == "paused" and not empty or hist == "none" and o != "member":
                    continue
                empty = empty and hist != "on"
                if o == "mark":
                    s.append(line("mark", rng.randint(0, 1)))
                elif o == "member" and ks[slot] == 18 and rng.random() < .5:
                    a, b = sorted([rng.randrange(6), rng.randrange(6)])
                    s.append(line("ranged", f, v, a, b))
                else:
                    s.append(line(o, f, v))
            elif o in ("pause", "resume", "drop"):
                if level or hist == "none" and o != "drop":
                    continue
                s.append(o)
                hist = {"pause": "paused", "resume": "on", "drop": "none"}[o]
                empty = empty or o == "drop"
            elif o == "keep":
                s.append(o)
                hist = "on" if hist == "none" else hist
            elif o == "begin":
                if level < 3:
                    s.append(o)
                    level += hist != "none"
            elif o == "end":
                if level or hist == "none":
                    s.append(o)
                    level -= hist != "none"
            elif o == "docfile":
                s.append(line(o, rng.randrange(3)))
            elif o in ("regen", "regendone"):
                s.append(line(o, rng.randrange(2)))
            elif o in ("docregen", "docdone", "touched", "saved"):
                s.append(o)
            elif hist != "none":
                if o == "report":
                    if not level:
                        continue
                    o = line(o, rng.choice([1, 2, 3]))
                if o == "clear" and level == 0:
                    empty = True
                s.append(o)
        return s
