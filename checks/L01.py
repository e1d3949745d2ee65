from vt.core import Prop, line


class PROP(Prop):
    id = "L01"
    driver = "llist"
    trace_module = "LListTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCLList", "MCLList_q.cfg"), ("MCLList", "MCLList_w.cfg")],
          "thorough": [("MCLList", "MCLList_t.cfg"), ("MCLList", "MCLList_w.cfg")]}
    assumptions = ("swapping entries is specified for entries the list holds at most once",
                   "a list is edited without history only after the history has been forgotten")

    def gen(self, rng, tier):
        out = []
        for i in range(120 if tier == "quick" else 1500):
            s = ["new"]
            lst = []   # only to choose sensible calls (swap needs unique entries)
            nd = rng.choice([2, 4, 9])
            known = True
            for _ in range(rng.choice([15, 40, 120])):
                r = rng.random()
                d, e = rng.randint(1, nd), rng.randint(1, nd)
                if r < 0.25:
                    s.append(line("add", d)); lst.append(d)
                elif r < 0.4:
                    s.append(line("before", d, e))
                    if d in lst:
                        lst.insert(lst.index(d), e)
                elif r < 0.55:
                    s.append(line("remove", d))
                    if d in lst:
                        lst.remove(d)
                elif r < 0.62 and known and lst.count(d) <= 1 and lst.count(e) <= 1:
                    s.append(line("swap", d, e))
                    if d in lst and e in lst:
                        lst = [e if x == d else d if x == e else x for x in lst]
                elif r < 0.64:
                    s.append("clear"); lst = []
                elif r < 0.75:
                    s.append("close")
                elif r < 0.9:
                    s += [rng.choice(["undo", "undo", "redo"])] * rng.choice([1, 1, 3])
                    known = False
                elif r < 0.93:
                    s.append(line("forget", rng.randint(0, 1)))
                elif r < 0.96:
                    s.append("scan")
                else:
                    s.append(line("copies", 0))
                if not known and rng.random() < 0.2:
                    s.append("clear"); lst = []; known = True
            s += ["close"] + ["undo"] * 30 + ["scan"] + ["redo"] * 30 + ["scan"]
            out.append(s)
        return out
