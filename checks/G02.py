import math
from vt.core import Prop, line

UNITS = [([0, 0, 1], 1), ([1, 0, 0], 1), ([0, -1, 0], 1), ([3, 4, 0], 5), ([1, -2, 2], 3), ([2, 3, 6], 7), ([-5, 12, 0], 13), ([-6, 2, 3], 7), ([4, 4, -7], 9)]
ON = [(3, 4), (4, 3), (-3, 4), (-4, -3), (5, 0), (0, -5), (0, 5), (-5, 0), (3, -4)]


def square(n):
    return n < 0 or math.isqrt(n) ** 2 == n


def disc(o, d, c, u, g, p, q):
    m = (-u[1], u[0])
    v = (o[0] - c[0], o[1] - c[1])
    dot = lambda a, b: a[0] * b[0] + a[1] * b[1]
    xd, yd, xv, yv = p * dot(d, u), q * dot(d, m), p * dot(v, u), q * dot(v, m)
    a, b, e = xd * xd + yd * yd, xd * xv + yd * yv, xv * xv + yv * yv - p * p * g * dot(u, u) ** 2
    return b * b - a * e


class PROP(Prop):
    id = "G02"
    driver = "geo"
    trace_module = "GeoTrace"
    trace_cfg = "seqtrace.cfg"
    mc = {"quick": [("MCGeo", "MCGeo_q.cfg")], "thorough": [("MCGeo", "MCGeo_t.cfg")]}
    walk_len = 300
    assumptions = ("whole coordinates small enough to tell exactly whether objects meet; answers are compared to a thousandth or a hundredth",
                   "what is asked of a point above the centre of a circle, and the distance from a segment whose foot is outside, is left open")

    def gen(self, rng, tier):
        out = []
        v = lambda n, k: [rng.randint(-k, k) for _ in range(n)]
        def nz(n, k):
            while True:
                x = v(n, k)
                if any(x):
                    return x
        add = lambda a, b, k=1: [x + k * y for x, y in zip(a, b)]
        cross = lambda u, w: [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
        for _ in range(40 if tier == "quick" else 1500):
            s = ["new"]
            for _ in range(12):
                p, q, n = v(3, 5), v(3, 5), nz(3, 5)
                near = cross(n, v(3, 1))
                s += [line("meetPlane", p, n, q, rng.choice([nz(3, 5), n, near]), rng.randrange(2)),
                      line("plane", rng.choice([p, add(q, near) if max(map(abs, near)) < 9 else q]), q, n, rng.randint(0, 60)),
                      line("line", rng.choice([p, add(q, n, rng.randint(-2, 2))]), q, n),
                      line("segment", rng.choice([p, q, add(q, n), add(q, n, 2), add(q, n, -1)]), q, add(q, n, rng.choice([1, 2]))),
                      line("points3", p, rng.choice([p, q])), line("points2", p[:2], rng.choice([p[:2], q[:2]]))]
                p, u, q, w = v(3, 4), nz(3, 4), v(3, 4), nz(3, 4)
                s += [line("lines", p, u, q, w), line("lines", p, u, q, rng.choice([u, [-x for x in u]])), line("lines", p, u, q, add([0, 0, 0], u, rng.choice([-3, 2, 3]))),
                      line("lines", p, [2 * x for x in w], q, [-x for x in w])]
                j = v(3, 3)
                s.append(line("lines", add(j, u, rng.randint(-1, 1)), u, add(j, w, rng.randint(-1, 1)), w))
                n, k = rng.choice(UNITS)
                c = v(3, 4)
                x = rng.choice([v(3, 6), add(c, rng.choice([[3, 4, 0], [0, -3, 4], [4, 0, 3], [5, 0, 0], [1, 2, 2], [0, 0, -5]]))])
                if any(cross(n, add(x, c, -1))):
                    s.append(line("circle", x, c, rng.choice([5, 3, 1, 4]), n))
                a, b = rng.choice(UNITS), rng.choice(UNITS)
                s.append(line("bisector", *a, *b))
                # in the plane
                p, u, q, w = v(2, 5), nz(2, 5), v(2, 5), nz(2, 5)
                j = v(2, 3)
                s += [line("meet2", p, u, q, w), line("foot2", p, q, u), line("crosses", v(2, 4), v(2, 4), v(2, 4), v(2, 4)),
                      line("crosses", j, add(j, u), add(j, w, rng.randint(-1, 0)), add(j, w, rng.randint(0, 2))),
                      line("ray", p, u, v(2, 5), v(2, 5)), line("ray", add(j, u, rng.randint(-3, 1)), u, add(j, w, rng.randint(-1, 0)), add(j, w, rng.randint(0, 1))),
                      line("touching", rng.randint(1, 5), v(2, 4), nz(2, 4), v(2, 4), nz(2, 4)), line("touching", rng.randint(1, 5), p[:2], u, p[:2], w)]
                a, b, c = v(2, 3), v(2, 3), v(2, 3)
                if (b[0] - a[0]) * (c[1] - a[1]) != (b[1] - a[1]) * (c[0] - a[0]):
                    s.append(line("through", a, b, c))
                for _ in range(4):
                    c = v(2, 4)
                    r = rng.choice([5, 10])
                    x = add(c, rng.choice(ON), r // 5)
                    d = nz(2, 2)
                    o = add(x, d, rng.randint(-4, 3)) if rng.random() < .7 else add(c, v(2, 12))
                    if square(disc(o, d, c, (1, 0), r * r, 1, 1)):
                        a, b = nz(2, 3), nz(2, 3)
                        if rng.random() < .2:
                            a = list(rng.choice([(3, 4), (-3, 4), (4, -3), (1, 0), (0, -1), (-1, 0)]))
                        if rng.random() < .2:
                            b = list(rng.choice([(3, 4), (-3, 4), (4, -3), (1, 0), (0, -1), (-1, 0), tuple(a)]))
                        s.append(line("arc", o, d, c, r * r, a, b, rng.randint(-2, 2), rng.randint(-2, 2)))
                for _ in range(3):
                    c = v(2, 4)
                    m = nz(2, 2)
                    if math.gcd(*m) > 1:
                        continue
                    g = rng.choice([2, 4, 10])
                    p_, q_ = rng.choice([(1, 2), (1, 1), (1, 2), (2, 1), (3, 2)])
                    x = rng.choice([add(c, m, g), add(c, m, -g), add(c, [-m[1], m[0]], g * p_ // q_), add(c, [m[1], -m[0]], g * p_ // q_)])
                    if g == 10:
                        x = add(add(c, m, rng.choice([6, -6])), [-m[1], m[0]], rng.choice([8, -8]) * p_ // q_)
                    d = nz(2, 2)
                    o = add(x, d, rng.randint(-4, 3))
                    if square(disc(o, d, c, m, g * g, p_, q_)):
                        s.append(line("ellipse", o, d, c, m, g, p_, q_, rng.randint(-6, 6), rng.randint(-6, 6)))
                c, e = v(2, 5), v(2, 5)
                s.append(line("circles", c, rng.randint(1, 6), e, rng.randint(1, 6), rng.choice([1, 10])))
                a, b = rng.randint(1, 8), rng.randint(1, 8)
                t = rng.choice([a + b, abs(a - b)])
                e = add(c, rng.choice([[t, 0], [0, t], [-t, 0]] + ([[3 * t // 5, 4 * t // 5]] if t % 5 == 0 else [])))
                s.append(line("circles", c, a, e, b, rng.choice([1, 10])))
            out.append(s)
        return out
