------------------------------- MODULE GeoTrace -----------------------------
EXTENDS TraceLib
VARIABLES l
M == INSTANCE Geo
Init == l = 1
Bit(x) == IF x THEN 1 ELSE 0
Step(e) ==
    LET a == e.a
        r == e.r
    IN CASE e.op = "new" -> TRUE
         \* points in thousandths
         [] e.op = "meetPlane" -> M!IsPoint(r, M!MeetPlane(a[1], a[2], a[3], a[4], a[5] = 1), 1000)
         \* a point and a plane: the foot, the distance in hundredths, if it is on it, for some tolerances in tenths
         [] e.op = "plane" -> /\ M!IsPoint(r[1], M!FootOnPlane(a[1], a[2], a[3]), 1000)
                              /\ LET d == M!ToPlane2(a[1], a[2], a[3]) IN
                                   /\ M!IsRootOf(r[2], d[1], d[2], 100)
                                   /\ r[3] = Bit(d[1] = 0)
                                   /\ r[4] = Bit(M!OnPlane(a[1], a[2], a[3], a[4], 10))
         \* a point and a line
         [] e.op = "line" -> /\ M!IsPoint(r[1], M!FootOnLine(a[1], a[2], a[3], TRUE), 1000)
                             /\ LET d == M!ToLine2(a[1], a[2], a[3]) IN M!IsRootOf(r[2], d[1], d[2], 100) /\ r[3] = Bit(d[1] = 0)
         \* a point and the segment from the second to the third; then the whole line
         [] e.op = "segment" -> LET v == M!Sub(a[3], a[2])
                                    in == M!FootOnLine(a[1], a[2], v, FALSE)
                                    d == M!ToLine2(a[1], a[2], v)
                                IN /\ M!IsPoint(r[1], in, 1000)
                                   /\ M!IsPoint(r[2], M!FootOnLine(a[1], a[2], v, TRUE), 1000)
                                   /\ (in # M!None => M!IsRootOf(r[3], d[1], d[2], 100))
                                   /\ M!IsRootOf(r[4], d[1], d[2], 100)
                                   /\ r[5] = Bit(M!OnSegment(a[1], a[2], a[3])) /\ r[6] = Bit(M!OnLine(a[1], a[2], v))
         \* two lines in space: the points of both nearest to the other, the distance in fiftieths, where they meet
         [] e.op = "lines" -> /\ M!IsPoint(r[1], M!FootOnSecond(a[1], a[2], a[3], a[4]), 1000)
                              /\ M!IsPoint(r[2], M!FootOnSecond(a[3], a[4], a[1], a[2]), 1000)
                              /\ LET d == M!Lines2(a[1], a[2], a[3], a[4]) IN M!IsRootOf(r[3], d[1], d[2], 50)
                              /\ M!IsPoint(r[4], M!Meet3(a[1], a[2], a[3], a[4]), 1000)
         \* a point and a circle (not above its centre): the nearest point and the distance in hundredths
         [] e.op = "circle" -> LET p == a[1]
                                   c == a[2]
                                   n == a[4]
                                   nn == M!Dot(n, n)
                                   w == M!Sub(M!Mult(nn, M!Sub(p, c)), M!Mult(M!Dot(n, M!Sub(p, c)), n))
                                   v == M!Sub(r[1], M!Mult(100, c))
                                   f == M!Sub(r[1], M!Mult(100, p))
                                   Len1(x) == M!Sum([i \in 1..3 |-> M!Abs(x[i]) + 1])
                               IN /\ Len(r[1]) = 3
                                  \* in the plane, on the circle, on the side of the point
                                  /\ M!Abs(M!Dot(n, v)) <= Len1(n)
                                  /\ M!Abs(M!Dot(v, v) - 10000 * a[3] * a[3]) <= 2 * Len1(v)
                                  /\ \A i \in 1..3 : M!Abs(M!Cross(w, v)[i]) <= Len1(w)
                                  /\ M!Dot(w, v) > 0
                                  /\ M!Abs(M!Dot(f, f) - r[2] * r[2]) <= 2 * Len1(f) + 2 * r[2]
                                  /\ r[3] = Bit(M!OnCircle(p, c, a[3], n))
         [] e.op = "points3" -> r[2] = Bit(a[1] = a[2]) /\ M!IsRoot(r[1], M!Dot(M!Sub(a[1], a[2]), M!Sub(a[1], a[2])))
         \* in the plane
         [] e.op = "points2" -> M!IsRoot(r[1], M!Dot(M!Sub(a[1], a[2]), M!Sub(a[1], a[2])))
         [] e.op = "meet2" -> M!IsPoint(r, M!Meet2(a[1], a[2], a[3], a[4]), 1000)
         [] e.op = "foot2" -> M!IsPoint(r, M!FootOnLine(a[1], a[2], a[3], TRUE), 1000)
         [] e.op = "crosses" -> r[1] = Bit(M!Crosses(a[1], a[2], a[3], a[4]))
         [] e.op = "ray" -> M!IsPoint(r, M!RayOnSegment(a[1], a[2], a[3], a[4]), 1000)
         \* the arc around a[3], its radius the root of a[4], from direction a[5] to direction a[6]
         [] e.op = "arc" -> \E x \in {M!RayOnEllipse(a[1], a[2], a[3], <<1, 0>>, a[4], 1, 1, a[5], a[6])} : x[1] /\ M!IsPoint(r, x[2], 1000)
         \* main axis a[4], a[5] times, minor axis a[6]/a[7] of it, from the a[8]th to the a[9]th quarter
         [] e.op = "ellipse" -> \E x \in {M!RayOnEllipse(a[1], a[2], a[3], a[4], a[5] * a[5], a[6], a[7], M!Turn2(a[4], a[8]), M!Turn2(a[4], a[9]))} :
                                   x[1] /\ M!IsPoint(r, x[2], 1000)
         \* two circles; all lengths are divided by a[5]. The points in hundredths
         [] e.op = "circles" -> LET v == M!Sub(a[3], a[1])
                                    d == M!Dot(v, v)
                                    sum == (a[2] + a[4]) * (a[2] + a[4])
                                    dif == (a[2] - a[4]) * (a[2] - a[4])
                                    IsOn(x, c, z) == \E w \in {M!Sub(x, M!Mult(100, c))} :
                                                        M!Abs(M!Dot(w, w) - 10000 * z * z) <= 2 * (M!Abs(w[1]) + M!Abs(w[2]) + 1)
                                    Side(x) == M!Sign(M!Cross2(v, M!Sub(x, M!Mult(100, a[1]))))
                                IN IF d = 0 \/ d > sum \/ d < dif THEN r = <<<<>>, <<>>>>
                                   ELSE /\ \A i \in 1..2 : Len(r[i]) = 2 /\ IsOn(r[i], a[1], a[2]) /\ IsOn(r[i], a[3], a[4])
                                        /\ IF d = sum \/ d = dif THEN r[1] = r[2] ELSE Side(r[1]) * Side(r[2]) < 0
         \* directions u/a[2] and v/a[4] of length one, in thousandths
         [] e.op = "bisector" -> LET b == <<M!Add(M!Mult(a[4], a[1]), M!Mult(a[2], a[3])), a[2] * a[4]>> IN
                                 /\ M!IsPoint(r[1], b, 1000)
                                 /\ a[1][3] = 0 /\ a[3][3] = 0 => M!IsPoint(r[2], <<SubSeq(b[1], 1, 2), b[2]>>, 1000)
         [] e.op = "through" -> /\ r[1] = 1 /\ M!IsPoint(r[2], M!Centre(a[1], a[2], a[3]), 1000)
                                /\ LET q == M!Radius2(a[1], a[2], a[3]) IN M!IsRootOf(r[3], q[1], q[2], 50)
         \* the circle of radius a[1] that touches two lines, in the quarter where the points are; in hundredths
         [] e.op = "touching" -> LET u == a[3]
                                     v == a[5]
                                     d == M!Cross2(u, v)
                                     x == M!Meet2(a[2], u, a[4], v)
                                     Touches(p, w) == \E s \in {M!Abs(M!Cross2(w, M!Sub(r[2], M!Mult(100, p))))}, k \in {M!Abs(w[1]) + M!Abs(w[2])} :
                                                         /\ s < 20000 /\ (s <= k \/ (s - k) * (s - k) <= 10000 * a[1] * a[1] * M!Dot(w, w))
                                                         /\ 10000 * a[1] * a[1] * M!Dot(w, w) <= (s + k) * (s + k)
                                 IN IF d = 0 THEN r[1] = 0
                                    ELSE /\ r[1] = 1 /\ Touches(a[2], u) /\ Touches(a[4], v)
                                         /\ \E f1 \in {M!Sub(M!Mult(x[2], a[2]), x[1])}, f2 \in {M!Sub(M!Mult(x[2], a[4]), x[1])} :
                                              \E g1 \in {IF M!Null(f1) THEN u ELSE M!Mult(M!Sign(x[2]), f1)}, g2 \in {IF M!Null(f2) THEN v ELSE M!Mult(M!Sign(x[2]), f2)} :
                                                \E c \in {M!Mult(M!Sign(x[2]), M!Sub(M!Mult(x[2], r[2]), M!Mult(100, x[1])))} :
                                                   M!Sign(M!Cross2(g1, c)) = M!Sign(M!Cross2(g1, g2)) /\ M!Sign(M!Cross2(c, g2)) = M!Sign(M!Cross2(g1, g2))
Next == l <= Len(Trace) /\ Trace[l].x = 0 /\ Step(Trace[l]) /\ l' = l + 1
Mem == Remember(l)
=============================================================================
