from checks.undo_common import ALL, UndoProp


class PROP(UndoProp):
    id = "U01"
    trace_cfg = "UndoTrace_hist.cfg"
    mc = {"quick": [("MCUndo", "MCUndo_hist.cfg"), ("MCUndo", "MCUndo_big.cfg")],
          "thorough": [("MCUndo", "MCUndo_hist2.cfg"), ("MCUndo", "MCUndo_deep.cfg")]}

    def gen(self, rng, tier):
        out = []
        n = 1 if tier == "quick" else 8
        for k in ALL:                       # every kind of member on its own
            for _ in range(2 * n):
                out.append(self.session(rng, 40, [k], 0.3, 0.25, 0))
        for _ in range(40 * n):             # documents mixing all kinds
            out.append(self.session(rng, rng.choice([30, 120]), rng.sample(ALL, rng.randint(2, 19)), 0.2, 0.2, 0))
        for _ in range(6 * n):              # long histories, many steps or very large steps
            out.append(self.session(rng, 600, rng.sample(ALL, 19), rng.choice([0.01, 0.6]), 0.1, 0))
        return out
