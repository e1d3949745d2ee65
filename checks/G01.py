from vt.core import Prop, line


UNITS = [([0, 0, 1], 1), ([0, 0, -1], 1), ([1, 0, 0], 1), ([0, -1, 0], 1), ([3, 4, 0], 5), ([1, -2, 2], 3), ([2, 3, 6], 7), ([0, 7, 24], 25), ([-6, 2, 3], 7), ([4, 4, -7], 9)]
SAME = [[1, 2, 2], [2, 1, -2], [3, 0, 0], [-1, -2, -2], [0, -3, 0], [2, 2, 1]]


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))


class PROP(Prop):
    id = "G01"
    driver = "algebra"
    trace_module = "AlgebraTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCAlgebra", "MCAlgebra_mq.cfg"), ("MCAlgebra", "MCAlgebra_tq.cfg"), ("MCAlgebra", "MCAlgebra_vq.cfg")],
          "thorough": [("MCAlgebra", "MCAlgebra_mt.cfg"), ("MCAlgebra", "MCAlgebra_tt.cfg"), ("MCAlgebra", "MCAlgebra_vt.cfg")]}
    walk_len = 250
    assumptions = ("entries are whole numbers small enough to be exact; angles are multiples of a right angle; "
                   "quotients and roots are compared to a thousandth",)

    def gen(self, rng, tier):
        out = []
        v = lambda n, k=9: [rng.randint(-k, k) for _ in range(n)]
        mat = lambda r, c, k=6: [v(c, k) for _ in range(r)]
        for _ in range(20 if tier == "quick" else 1000):
            s = ["new"]
            for _ in range(8):
                r, c = rng.randint(1, 4), rng.randint(1, 4)
                if rng.random() < .5:
                    c = r
                elif rng.random() < .3:
                    r, c = rng.choice([(1, 7), (2, 5), (6, 2), (3, 7), (5, 5), (7, 1), (6, 4)])
                s += [line("mat", mat(r, c)), line("rhs", mat(*rng.choice([(r, c), (c, r), (c, rng.randint(1, 5)), (rng.randint(1, 4), rng.randint(1, 4))])))]
                for _ in range(5):
                    s += [rng.choice(["mul", "plus", "minus", "swap", "copy", "facts", "transpose", line("insert", 0, 0), line("times", rng.randint(-2, 2)),
                                      line("apply", v(c)), line("apply3", v(3))])]
                r = min(r, 4)
                m = mat(r, r, 5)
                s += [line("mat", m), "det", "facts"]
                if det(m):
                    s += ["inverse", "transpose", "inverse"]
                k = rng.choice([-3, 2, 7])
                s += [line("times", k), line("over", k), line("rhs", mat(2, 2)), line("insert", rng.randrange(r), rng.randrange(r))]
                n = rng.randint(1, 3)
                m = mat(n, n, 3)
                s += [line("mat", [[m[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]), "eigen"]
                # eigenvalues 9x, 9y, 9z
                x, y, z = v(3, 3)
                q = [[1, -2, -2], [-2, 1, -2], [-2, -2, 1]]
                s += [line("mat", [[sum(q[i][k] * (x, y, z)[k] * q[j][k] for k in range(3)) for j in range(3)] for i in range(3)]), "eigenInt"]
                a = rng.randint(-5, 5)
                b, c, e = v(3, 4)
                s += [line("mat", [[a, 0], [c, b]] if rng.random() < .5 else [[a, c], [0, b]]), "eigenInt"]
                s += [line("rows3", v(3), v(3), v(3), rng.randrange(2)), "det", "facts"]
                forms = lambda: rng.choice(["identity", line("moving", v(3)), line("scaling", v(3, 3)), line("scalingAt", v(3), rng.randint(-3, 3)),
                                            line("mirroring", v(3), rng.choice([[1, 0, 0], [0, -1, 0], [0, 0, 1]])), line("rotationZ", rng.randint(-5, 5)),
                                            line("rotation", v(3), rng.choice([[1, 0, 0], [0, -1, 0], [0, 0, 1]]), rng.randint(-5, 5))])
                for _ in range(2):
                    s += [forms(), forms(), "mul", line("image", v(3)), line("length", rng.randint(0, 9)), "det"]
                s += [line("rotationZ", rng.randint(-5, 5)), line("angle", rng.randint(0, 3))]
                for _ in range(3):
                    n, k = rng.choice(UNITS)
                    n = [rng.choice([x, -x]) for x in n]
                    p = v(3)
                    s += [line("turned", v(3), n, k, p, rng.randint(-4, 4)), line("mirrored", v(3), n, k, v(3)), line("ocs", n, k, v(3))]
                    u, w = list(rng.choice(SAME)), list(rng.choice(SAME))
                    rng.shuffle(u)
                    s += [line("uv", u, rng.choice([w, u, [-x for x in u]]), v(3))]
                    s += [line("v3", v(3), v(3), rng.choice([-2, 3])), line("v2", v(2), v(2), rng.choice([-2, 3])), line("conv", v(3), rng.randint(-5, 5)), line("len", v(rng.choice([2, 3, 3, 5])))]
                    u = v(3, 20)
                    w = rng.choice([v(3, 20), u, [-2 * x for x in u], [u[1], -u[0], 0]])
                    if any(u) and any(w):
                        s.append(line("between", u, w))
                        if any(u[:2]) and any(w[:2]):
                            s.append(line("between", u[:2], w[:2]))
                    s += [line("turn2", v(2), rng.randint(-6, 6)), line("turn3", v(3), rng.randint(-6, 6))]
                    u, w = v(3), v(3)
                    s += [line("independent", u, w, rng.choice([v(3), [x + y for x, y in zip(u, w)], [2 * x for x in u]]))]
                    p, q = v(2), v(2)
                    if p[0] * q[1] != p[1] * q[0]:
                        s.append(line("solve", p, q, v(2)))
                    n = rng.randint(0, 5)
                    s += [line("vn", v(n), v(rng.choice([n, n, n + 1])), rng.randint(-3, 3))]
            out.append(s)
        return out
