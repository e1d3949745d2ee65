------------------------------ MODULE SplineTrace ---------------------------
EXTENDS TraceLib
VARIABLES c, l
M == INSTANCE Spline
Init == c = M!None /\ l = 1
Step(e) ==
    LET a == e.a
        r == e.r
    IN CASE e.op = "new" -> e.x = 0 /\ c' = M!None
         [] e.op = "curve" -> e.x = 0 /\ c' = M!Curve(a[1], a[2], a[3], a[4])
         [] e.op = "noCurve" -> e.x = 1 /\ UNCHANGED c
         \* the point at a[1]/a[2], in hundredths
         [] e.op = "at" -> e.x = 0 /\ UNCHANGED c /\ \E p \in {M!Point(c, a[1], a[2])} : \A i \in 1..3 : M!Near(r[i], p[i], p[4], 100, 1)
         \* the ends of the curve: first and last control point
         [] e.op = "ends" -> e.x = 0 /\ UNCHANGED c /\ r = <<M!Mult(100, c.p[1]), M!Mult(100, c.p[Len(c.p)])>>
         [] e.op = "facts" -> e.x = 0 /\ UNCHANGED c /\ r = <<Len(c.p), c.u, M!LastKnot(c)>>
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ Trace[l].o[1] = Len(c'.p) /\ l' = l + 1
Mem == Remember(c)
=============================================================================
