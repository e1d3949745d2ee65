from checks.undo_common import ALL, SETTERS, UndoProp


class PROP(UndoProp):
    id = "U02"
    trace_cfg = "UndoTrace_tx.cfg"
    mc = {"quick": [("MCUndo", "MCUndo_tx.cfg"), ("MCUndo", "MCUndo_big.cfg")],
          "thorough": [("MCUndo", "MCUndo_tx.cfg"), ("MCUndo", "MCUndo_deep.cfg")]}

    def gen(self, rng, tier):
        out = []
        n = 1 if tier == "quick" else 8
        for k in SETTERS:
            for _ in range(3 * n):
                out.append(self.session(rng, 60, [k], 0.15, 0.2, 0.3))
        for _ in range(50 * n):
            ks = rng.sample(ALL, rng.randint(2, 19))
            if 18 not in ks:
                ks[0] = 18
            out.append(self.session(rng, rng.choice([40, 150]), ks, 0.15, 0.15, rng.choice([0.1, 0.3, 0.5])))
        return out
