------------------------------ MODULE PlaneTrace ----------------------------
EXTENDS TraceLib
VARIABLES r, q, b, c, l          \* two rectangles, two boxes
P == INSTANCE Plane
Zero == <<0, 0, 0, 0>>
Init == r = Zero /\ q = Zero /\ b = P!NoBox /\ c = P!NoBox /\ l = 1
Bit(x) == IF x THEN 1 ELSE 0
Boxes == UNCHANGED <<b, c>>
Rects == UNCHANGED <<r, q>>
Same == UNCHANGED <<r, q, b, c>>
To(v) == r' = v /\ UNCHANGED q /\ Boxes
Step(e) ==
    LET a == e.a
        s == e.r
    IN CASE e.op = "new" -> r' = Zero /\ q' = Zero /\ b' = P!NoBox /\ c' = P!NoBox
         [] e.op = "rect" -> To(a)
         [] e.op = "other" -> q' = a /\ UNCHANGED r /\ Boxes
         [] e.op = "swap" -> r' = q /\ q' = r /\ Boxes
         [] e.op = "at" -> To(<<a[1], a[2], r[3], r[4]>>)
         [] e.op = "size" -> To(<<r[1], r[2], a[1], a[2]>>)
         [] e.op = "move" -> To(<<r[1] + a[1], r[2] + a[2], r[3], r[4]>>)
         [] e.op \in {"top", "shiftTop"} -> To(P!SetTop(r, a[1] + IF e.op = "top" THEN 0 ELSE P!Top(r)))
         [] e.op \in {"left", "shiftLeft"} -> To(P!SetLeft(r, a[1] + IF e.op = "left" THEN 0 ELSE P!Left(r)))
         [] e.op \in {"right", "shiftRight"} -> To(P!SetRight(r, a[1] + IF e.op = "right" THEN 0 ELSE P!Right(r)))
         [] e.op \in {"bottom", "shiftBottom"} -> To(P!SetBottom(r, a[1] + IF e.op = "bottom" THEN 0 ELSE P!Bottom(r)))
         [] e.op = "alignTopLeft" -> To(<<q[1], q[2], r[3], r[4]>>)
         [] e.op = "alignBottomLeft" -> To(<<q[1], P!Bottom(q) - r[4], r[3], r[4]>>)
         [] e.op = "normalize" -> To(P!Normalized(r))
         [] e.op = "unite" -> To(P!Union(r, q))
         \* asked for rectangles that do intersect
         [] e.op = "intersect" -> To(P!Intersection(r, q))
         [] e.op = "relation" -> Same /\ s[1] = Bit(P!Intersects(r, q))
                                      /\ IF P!Intersects(r, q) THEN s[2] = P!Intersection(r, q) ELSE P!Empty(s[2])
         [] e.op = "contains" -> Same /\ s = <<Bit(P!Contains(r, a[1], a[2])), s[1], s[1]>>
         [] e.op = "empty" -> Same /\ s = <<Bit(P!Empty(r))>>
         [] e.op = "points" -> Same /\ s = P!Points2(r) \o <<<<r[1], r[2]>>, <<r[3], r[4]>>>>
         \* sums, differences, component by component minimum and maximum, multiples
         [] e.op = "pair" -> Same /\ LET x == a[1]
                                         y == a[2]
                                         lo == <<P!Min2(x[1], y[1]), P!Min2(x[2], y[2])>>
                                         hi == <<P!Max2(x[1], y[1]), P!Max2(x[2], y[2])>>
                                         sum == <<x[1] + y[1], x[2] + y[2]>>
                                         dif == <<x[1] - y[1], x[2] - y[2]>>
                                         k == <<a[3] * x[1], a[3] * x[2]>>
                                     IN s = <<sum, dif, sum, dif, lo, hi, k, k, lo, hi, dif, k, Bit(x = y), Bit(x # y)>>
         [] e.op = "add2" -> Rects /\ UNCHANGED c /\ b' = P!Add2(b, a[1], a[2])
         [] e.op = "add3" -> Rects /\ UNCHANGED c /\ b' = P!Add3(b, a[1], a[2], a[3])
         [] e.op = "addBox" -> Rects /\ UNCHANGED c /\ b' = P!AddBox(b, c)
         [] e.op = "swapBoxes" -> Rects /\ b' = c /\ c' = b
         [] e.op = "box" -> Same /\ s[1] = Bit(P!Valid(b))
                                 /\ \A i \in 1..3 : b[i] # <<>> => s[2][i] = b[i] /\ <<s[3][i]>> = P!Delta(b)[i]
Next == /\ l <= Len(Trace) /\ Trace[l].x = 0 /\ Step(Trace[l])
        /\ <<r', q'>> = <<Trace[l].o[1], Trace[l].o[2]>>
        /\ \A i \in 1..3 : (b'[i] # <<>> => Trace[l].o[3][i] = b'[i]) /\ (c'[i] # <<>> => Trace[l].o[4][i] = c'[i])
        /\ l' = l + 1
Mem == Remember(<<r, q, b, c>>)
=============================================================================
