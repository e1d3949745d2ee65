-------------------------------- MODULE Spline ------------------------------
\* NURBS: degree k, control points, weights, knots (all whole numbers). Points are found by de Boor's triangle of corner
\* cuttings, in homogeneous coordinates with one common denominator.
EXTENDS Algebra
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
Curve(k, p, w, u) == [k |-> k, p |-> p, w |-> w, u |-> u]
None == Curve(0, <<>>, <<>>, <<>>)
\* a curve: one weight per point, knots never fall, no knot inside is repeated more than k times, the ends k + 1 times
IsCurve(c) ==
    LET n == Len(c.p)
        Often(x) == Cardinality({i \in DOMAIN c.u : c.u[i] = x})
    IN /\ c.k >= 1 /\ n > c.k /\ Len(c.w) = n /\ Len(c.u) = n + c.k + 1
       /\ \A i \in 1..(Len(c.u) - 1) : c.u[i] <= c.u[i + 1]
       /\ \A i \in 1..n : c.w[i] > 0
       /\ Often(c.u[1]) = c.k + 1 /\ Often(c.u[Len(c.u)]) = c.k + 1
       /\ \A i \in (c.k + 2)..n : Often(c.u[i]) <= c.k
FirstKnot(c) == c.u[1]
LastKnot(c) == IF c.u = <<>> THEN 0 ELSE c.u[Len(c.u)]
\* the span of t = a/b: the last one that is not empty and begins at t or before, for the last knot the one before
Span(c, a, b) == CHOOSE s \in (c.k + 1)..Len(c.p) : /\ c.u[s] < c.u[s + 1] /\ c.u[s] * b <= a
                                                   /\ \A x \in (s + 1)..Len(c.p) : ~(c.u[x] < c.u[x + 1] /\ c.u[x] * b <= a)
Homogeneous(c, i) == <<c.p[i][1] * c.w[i], c.p[i][2] * c.w[i], c.p[i][3] * c.w[i], c.w[i]>>
\* points with a common denominator, reduced
Reduce(q) == LET g == FoldLeft(LAMBDA x, v : FoldLeft(Gcd, x, v), q.d, q.v)
             IN [v |-> [i \in DOMAIN q.v |-> [j \in 1..4 |-> q.v[i][j] \div g]], d |-> q.d \div g]
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))
Lcm(x, y) == x * (y \div Gcd(x, y))
\* one round of cutting: m points become m - 1, weighted by where t lies between the knots
Cut(c, s, q, a, b) ==
    LET m == Len(q.v)
        \* point i of the new ones lies between the knots lo and hi
        lo(i) == s - m + 1 + i
        hi(i) == s + i
        den == FoldLeft(LAMBDA x, i : Lcm(x, c.u[hi(i)] - c.u[lo(i)]), 1, [i \in 1..(m - 1) |-> i])
    IN Reduce([v |-> [i \in 1..(m - 1) |->
                        LET f == den \div (c.u[hi(i)] - c.u[lo(i)])
                        IN [j \in 1..4 |-> f * ((b * c.u[hi(i)] - a) * q.v[i][j] + (a - b * c.u[lo(i)]) * q.v[i + 1][j])]],
               d |-> q.d * den * b])
RECURSIVE Triangle(_, _, _, _, _)
Triangle(c, s, q, a, b) == IF Len(q.v) = 1 THEN q.v[1] ELSE Triangle(c, s, Cut(c, s, q, a, b), a, b)
\* the point at t = a/b: three numerators and the denominator
Point(c, a, b) == LET s == Span(c, a, b)
                  IN Triangle(c, s, [v |-> [i \in 1..(c.k + 1) |-> Homogeneous(c, s - c.k - 1 + i)], d |-> 1], a, b)
=============================================================================
