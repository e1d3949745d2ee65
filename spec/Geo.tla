---------------------------------- MODULE Geo -------------------------------
\* Points, lines, planes, circles and ellipses with whole coordinates. A point that need not be whole is <<numerators,
\* denominator>>; no point is <<>>.
EXTENDS Algebra
None == <<>>
\* r is the point p in units of 1/k
IsPoint(r, p, k) == IF p = None THEN r = <<>>
                    ELSE Len(r) = Len(p[1]) /\ \A i \in DOMAIN r : Near(r[i], p[1][i], p[2], k, 1)
\* x is the root of n/d in units of 1/k
IsRootOf(x, n, d, k) == x >= 0 /\ (x = 0 \/ (x - 1) * (x - 1) * d <= k * k * n) /\ k * k * n <= (x + 1) * (x + 1) * d
\* 0 <= n/d <= 1
InUnit(n, d) == IF d > 0 THEN 0 <= n /\ n <= d ELSE d <= n /\ n <= 0
Positive(n, d) == n # 0 /\ (n > 0) = (d > 0)
\* the point p + n/d * v
On(p, v, n, d) == <<Add(Mult(d, p), Mult(n, v)), d>>

\* the line q + x v and the plane through p with normal n; the segment from q to q + v if not extended
MeetPlane(p, n, q, v, ext) ==
    LET den == Dot(n, v)
        num == Dot(n, Sub(p, q))
    IN IF den = 0 \/ (~ext /\ ~InUnit(num, den)) THEN None ELSE On(q, v, num, den)
FootOnPlane(p, q, n) == MeetPlane(q, n, p, n, TRUE)
FootOnLine(p, q, v, ext) == IF Null(v) \/ (~ext /\ ~InUnit(Dot(Sub(p, q), v), Dot(v, v))) THEN None
                            ELSE On(q, v, Dot(Sub(p, q), v), Dot(v, v))
Parallel(u, v) == Null(Cross(u, v))
\* of the second line, nearest to the first
FootOnSecond(p, u, q, v) ==
    LET w == Sub(p, q)
        den == Dot(u, u) * Dot(v, v) - Dot(u, v) * Dot(u, v)
    IN IF den = 0 THEN None ELSE On(q, v, Dot(u, u) * Dot(v, w) - Dot(u, v) * Dot(u, w), den)
\* squares of distances, as quotients
ToPlane2(p, q, n) == <<Dot(n, Sub(p, q)) * Dot(n, Sub(p, q)), Dot(n, n)>>
ToLine2(p, q, v) == LET c == Cross(v, Sub(p, q)) IN <<Dot(c, c), Dot(v, v)>>
Lines2(p, u, q, v) == IF Parallel(u, v) THEN ToLine2(q, p, u)
                      ELSE LET n == Cross(u, v) IN <<Dot(n, Sub(p, q)) * Dot(n, Sub(p, q)), Dot(n, n)>>
Meet3(p, u, q, v) == IF Parallel(u, v) \/ Dot(Cross(u, v), Sub(p, q)) # 0 THEN None ELSE FootOnSecond(p, u, q, v)
OnPlane(p, q, n, t, k) == ToPlane2(p, q, n)[1] * k * k <= t * t * ToPlane2(p, q, n)[2]
OnLine(p, q, v) == Null(Cross(v, Sub(p, q)))
OnSegment(p, q, s) == OnLine(p, q, Sub(s, q)) /\ InUnit(Dot(Sub(p, q), Sub(s, q)), Dot(Sub(s, q), Sub(s, q)))
OnCircle(p, c, r, n) == Dot(n, Sub(p, c)) = 0 /\ Dot(Sub(p, c), Sub(p, c)) = r * r

\* in the plane
Meet2(p, u, q, v) == LET d == Cross2(u, v) IN IF d = 0 THEN None ELSE On(q, v, Cross2(u, Sub(p, q)), d)
\* both segments p..s and q..t, end points included, have exactly one point in common
Crosses(p, s, q, t) ==
    LET u == Sub(s, p)
        v == Sub(t, q)
        d == Cross2(u, v)
    IN d # 0 /\ InUnit(Cross2(u, Sub(p, q)), d) /\ InUnit(Cross2(v, Sub(p, q)), d)
\* where the ray from o towards v, without o, meets the segment
RayOnSegment(o, v, q, t) ==
    LET u == Sub(t, q)
        d == Cross2(v, u)
    IN IF d # 0 /\ InUnit(Cross2(v, Sub(o, q)), d) /\ Positive(Cross2(u, Sub(o, q)), d)
       THEN On(q, u, Cross2(v, Sub(o, q)), d) ELSE None
\* the direction x comes, counted from u against the clock, not after w; all of it if u and w are the same direction
Turned(u, x) == LET c == Cross2(u, x) IN IF c > 0 THEN 1 ELSE IF c < 0 THEN 3 ELSE IF Dot(u, x) > 0 THEN 0 ELSE 2
Within(u, w, x) == \/ Turned(u, w) = 0
                   \/ Turned(u, x) = 0
                   \/ Turned(u, x) < Turned(u, w)
                   \/ Turned(u, x) = Turned(u, w) /\ Cross2(x, w) >= 0
RECURSIVE Bisect(_, _, _)
Bisect(n, lo, hi) == IF lo >= hi THEN lo
                     ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Bisect(n, m, hi) ELSE Bisect(n, lo, m - 1)
\* the whole part of the root
Root(n) == Bisect(n, 0, 46340)
\* The ray from o towards d and the ellipse around c with main axis u times the root of g and minor axis p/q of it: where
\* it meets, first, the arc that reaches from direction s to direction w; and if that is a quotient at all.
RayOnEllipse(o, d, c, u, g, p, q, s, w) ==
    LET m == <<-u[2], u[1]>>
        v == Sub(o, c)
        xd == p * Dot(d, u)
        yd == q * Dot(d, m)
        xv == p * Dot(v, u)
        yv == q * Dot(v, m)
        a == xd * xd + yd * yd
        b == xd * xv + yd * yv
        e == xv * xv + yv * yv - p * p * g * Dot(u, u) * Dot(u, u)
        disc == b * b - a * e
        Ok(n) == n > 0 /\ Within(s, w, Add(Mult(a, v), Mult(n, d)))
        rt == IF disc < 0 THEN 0 ELSE Root(disc)
    IN IF disc < 0 THEN <<TRUE, None>>
       ELSE <<rt * rt = disc, IF Ok(-b - rt) THEN On(o, d, -b - rt, a) ELSE IF Ok(-b + rt) THEN On(o, d, -b + rt, a) ELSE None>>
\* the circle through three points: its centre
Centre(p, s, t) ==
    LET u == Sub(s, p)
        v == Sub(t, p)
        d == 2 * Cross2(u, v)
    IN <<Add(Mult(d, p), <<v[2] * Dot(u, u) - u[2] * Dot(v, v), u[1] * Dot(v, v) - v[1] * Dot(u, u)>>), d>>
Radius2(p, s, t) == LET d == 2 * Cross2(Sub(s, p), Sub(t, p))
                        D2(x, y) == Dot(Sub(x, y), Sub(x, y))
                    IN <<D2(p, s) * D2(s, t) * D2(t, p), d * d>>
=============================================================================
