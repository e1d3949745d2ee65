------------------------------- MODULE MCSpline -----------------------------
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, Big
VARIABLES c, op
M == INSTANCE Spline
View == c
Init == c = M!None /\ op = <<"new">>
P == <<<<0, 0, 1>>, <<4, 2, 0>>, <<3, -5, 2>>, <<-2, 6, 4>>, <<7, 7, -3>>, <<1, 0, 0>>, <<-4, 3, 5>>>>
Q == [i \in 1..7 |-> <<P[i][2], -P[i][1], P[8 - i][3]>>]
Weights(n) == {[i \in 1..n |-> 1], [i \in 1..n |-> 1 + (i % 2)]} \cup (IF Big THEN {[i \in 1..n |-> IF i = 2 THEN 3 ELSE 1], [i \in 1..n |-> i]} ELSE {})
\* the knots inside, never falling
Inside(n) == IF n = 0 THEN {<<>>} ELSE IF n = 1 THEN {<<1>>, <<2>>} ELSE IF n = 2 THEN {<<1, 2>>, <<1, 1>>, <<2, 3>>, <<1, 3>>} ELSE {[i \in 1..n |-> i], [i \in 1..n |-> (i + 1) \div 2]}
Rep(x, n) == [i \in 1..n |-> x]
Curves == UNION {UNION {{M!Curve(k, SubSeq(p, 1, n), w, Rep(0, k + 1) \o u \o Rep(4, k + 1)) : p \in {P, Q}, w \in Weights(n), u \in Inside(n - k - 1)} : n \in (k + 1)..(IF Big THEN 7 ELSE 5)} : k \in 1..3}
Next ==
    \/ c = M!None /\ \E x \in Curves : M!IsCurve(x) /\ c' = x /\ op' = <<"curve", x.k, x.p, x.w, x.u>>
    \/ c = M!None /\ UNCHANGED c /\ op' = <<"noCurve">>
    \/ c # M!None /\ UNCHANGED c /\ \E a \in 0..(IF Big THEN 32 ELSE 16) : op' = <<"at", a, IF Big THEN 8 ELSE 4>>
    \/ c # M!None /\ UNCHANGED c /\ op' = <<"ends">>
    \/ c # M!None /\ UNCHANGED c /\ op' = <<"facts">>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
Is(q, p) == \A i \in 1..3 : q[i] = p[i] * q[4]
Some == c # M!None
\* the curve begins and ends at its outermost control points
Ends == Some => Is(M!Point(c, 0, 1), c.p[1]) /\ Is(M!Point(c, 4, 1), c.p[Len(c.p)])
\* it stays in the box around its control points (those of the span)
Inside2 == Some => \A a \in 0..16 : \E q \in {M!Point(c, a, 4)}, s \in {M!Span(c, a, 4)} :
             \A i \in 1..3 : /\ \E j \in (s - c.k)..s : c.p[j][i] * q[4] <= q[i]
                             /\ \E j \in (s - c.k)..s : c.p[j][i] * q[4] >= q[i]
\* moving all points moves the curve; all weights times the same change nothing; read backwards it is the same curve
Norm(q) == LET g == M!FoldLeft(M!Gcd, 0, q) IN [i \in 1..4 |-> q[i] \div g]
Moved == Some => \A a \in {0, 3, 8, 11, 16} : \E q \in {Norm(M!Point(c, a, 4))} :
            /\ LET w == M!Point([c EXCEPT !.p = [i \in DOMAIN c.p |-> M!Add(c.p[i], <<1, -2, 3>>)]], a, 4)
               IN Norm(w) = <<q[1] + q[4], q[2] - 2 * q[4], q[3] + 3 * q[4], q[4]>>
            /\ Norm(M!Point([c EXCEPT !.w = [i \in DOMAIN c.w |-> 2 * c.w[i]]], a, 4)) = q
            /\ LET n == Len(c.p)
                   m == Len(c.u)
               IN Norm(M!Point(M!Curve(c.k, [i \in 1..n |-> c.p[n + 1 - i]], [i \in 1..n |-> c.w[n + 1 - i]], [i \in 1..m |-> 4 - c.u[m + 1 - i]]), 16 - a, 4)) = q
\* a quarter of a circle is one
Circle == \A a \in 0..8 : \E q \in {M!Point(M!Curve(2, <<<<1, 0, 0>>, <<1, 1, 0>>, <<0, 1, 0>>>>, <<1, 1, 2>>, <<0, 0, 0, 1, 1, 1>>), a, 8)} : q[1] * q[1] + q[2] * q[2] = q[4] * q[4]
=============================================================================
