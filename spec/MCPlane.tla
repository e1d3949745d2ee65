------------------------------- MODULE MCPlane ------------------------------
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, Lo, Hi, Part, MaxSteps
Minus1 == -1
VARIABLES r, q, b, c, n, op
P == INSTANCE Plane
View == <<r, q, b, c, n>>
Zero == <<0, 0, 0, 0>>
Z == Lo..Hi
Init == r = Zero /\ q = Zero /\ b = P!NoBox /\ c = P!NoBox /\ n = 0 /\ op = <<"new">>
Rs == {<<x, y, w, h>> : x \in {Lo, 0, 1}, y \in {0, 1}, w \in Z, h \in {Lo, 0, Hi}}
Qs == {<<0, 0, 1, 2>>, <<1, Lo, 1, 1>>, <<-1, 1, 2, 0>>, <<Hi, Hi, 1, 1>>, <<Lo - 2, Lo, 1, 5>>}
Rects == Part = "rect" /\ UNCHANGED <<b, c>>
Chg == Rects /\ n >= 2 /\ n < MaxSteps /\ n' = n + 1
Ask == Rects /\ n >= 2 /\ UNCHANGED <<r, q, n>>
Box == Part = "box" /\ UNCHANGED <<r, q>> /\ n < MaxSteps /\ n' = n + 1
Next ==
    \/ Rects /\ n = 0 /\ n' = 1 /\ UNCHANGED q /\ \E x \in Rs : r' = x /\ op' = <<"rect", x[1], x[2], x[3], x[4]>>
    \/ Rects /\ n = 1 /\ n' = 2 /\ UNCHANGED r /\ \E x \in Qs : q' = x /\ op' = <<"other", x[1], x[2], x[3], x[4]>>
    \/ Chg /\ r' = q /\ q' = r /\ op' = <<"swap">>
    \/ Chg /\ UNCHANGED q /\ \E x, y \in {Lo, Hi} : r' = <<x, y, r[3], r[4]>> /\ op' = <<"at", x, y>>
    \/ Chg /\ UNCHANGED q /\ \E x, y \in {Lo, Hi} : r' = <<r[1], r[2], x, y>> /\ op' = <<"size", x, y>>
    \/ Chg /\ UNCHANGED q /\ \E x, y \in {Lo, 1} : r' = <<r[1] + x, r[2] + y, r[3], r[4]>> /\ op' = <<"move", x, y>>
    \/ Chg /\ UNCHANGED q /\ \E x \in {Lo, Hi} : r' = P!SetTop(r, x) /\ op' = <<"top", x>>
    \/ Chg /\ UNCHANGED q /\ \E x \in {Lo, Hi} : r' = P!SetLeft(r, x) /\ op' = <<"left", x>>
    \/ Chg /\ UNCHANGED q /\ \E x \in {Lo, Hi} : r' = P!SetRight(r, x) /\ op' = <<"right", x>>
    \/ Chg /\ UNCHANGED q /\ \E x \in {Lo, Hi} : r' = P!SetBottom(r, x) /\ op' = <<"bottom", x>>
    \/ Chg /\ UNCHANGED q /\ \E x \in {Lo, 1} : r' = P!SetTop(r, P!Top(r) + x) /\ op' = <<"shiftTop", x>>
    \/ Chg /\ UNCHANGED q /\ \E x \in {Lo, 1} : r' = P!SetLeft(r, P!Left(r) + x) /\ op' = <<"shiftLeft", x>>
    \/ Chg /\ UNCHANGED q /\ \E x \in {Lo, 1} : r' = P!SetRight(r, P!Right(r) + x) /\ op' = <<"shiftRight", x>>
    \/ Chg /\ UNCHANGED q /\ \E x \in {Lo, 1} : r' = P!SetBottom(r, P!Bottom(r) + x) /\ op' = <<"shiftBottom", x>>
    \/ Chg /\ UNCHANGED q /\ r' = <<q[1], q[2], r[3], r[4]>> /\ op' = <<"alignTopLeft">>
    \/ Chg /\ UNCHANGED q /\ r' = <<q[1], P!Bottom(q) - r[4], r[3], r[4]>> /\ op' = <<"alignBottomLeft">>
    \/ Chg /\ UNCHANGED q /\ r' = P!Normalized(r) /\ op' = <<"normalize">>
    \/ Chg /\ UNCHANGED q /\ P!Normal(r) /\ P!Normal(q) /\ r' = P!Union(r, q) /\ op' = <<"unite">>
    \/ Chg /\ UNCHANGED q /\ P!Normal(r) /\ P!Normal(q) /\ P!Intersects(r, q) /\ r' = P!Intersection(r, q) /\ op' = <<"intersect">>
    \/ Ask /\ P!Normal(r) /\ P!Normal(q) /\ op' = <<"relation">>
    \/ Ask /\ P!Normal(r) /\ \E x, y \in Z : op' = <<"contains", x, y>>
    \/ Ask /\ op' = <<"empty">>
    \/ Ask /\ op' = <<"points">>
    \/ Rects /\ n = 0 /\ UNCHANGED <<r, q, n>> /\ \E x, y \in Z \X {Lo, Hi}, k \in {-1, 2} : op' = <<"pair", x, y, k>>
    \/ Box /\ UNCHANGED c /\ \E x \in Z, y \in {Lo, Hi} : b' = P!Add2(b, x, y) /\ op' = <<"add2", x, y>>
    \/ Box /\ UNCHANGED c /\ \E x \in {0, Hi}, y \in {1, Hi}, z \in {Lo, Hi} : b' = P!Add3(b, x, y, z) /\ op' = <<"add3", x, y, z>>
    \/ Box /\ UNCHANGED c /\ b' = P!AddBox(b, c) /\ op' = <<"addBox">>
    \/ Box /\ b' = c /\ c' = b /\ op' = <<"swapBoxes">>
    \/ Part = "box" /\ UNCHANGED <<r, q, b, c, n>> /\ op' = <<"box">>
    \/ r' = Zero /\ q' = Zero /\ b' = P!NoBox /\ c' = P!NoBox /\ n' = 0 /\ op' = <<"new">>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
\* the grid around everything
G == (2 * Lo - 2)..(2 * Hi + 2)
AsSet(x) == {p \in G \X G : P!Contains(x, p[1], p[2])}
\* the points of the intersection are the common points, the union is the smallest rectangle around both
Sets == (P!Normal(r) /\ P!Normal(q) /\ n = 2) =>
          /\ P!Intersects(r, q) <=> AsSet(r) \cap AsSet(q) # {}
          /\ P!Intersects(r, q) => AsSet(P!Intersection(r, q)) = AsSet(r) \cap AsSet(q)
          /\ P!Inside(r, P!Union(r, q)) /\ P!Inside(q, P!Union(r, q))
          /\ P!Intersects(r, q) = P!Intersects(q, r) /\ P!Union(r, q) = P!Union(q, r)
Norm == /\ P!Normal(P!Normalized(r)) /\ P!Normalized(P!Normalized(r)) = P!Normalized(r)
        /\ P!Normal(r) => P!Normalized(r) = r
\* one edge is moved, the three others stay
Edge(x) == <<P!Left(x), P!Top(x), P!Right(x), P!Bottom(x)>>
Moves == [][op'[1] \in {"top", "left", "right", "bottom", "shiftTop", "shiftLeft", "shiftRight", "shiftBottom"} =>
              \E i \in 1..4 : \A j \in 1..4 \ {i} : Edge(r')[j] = Edge(r)[j]]_<<r, q, b, c, n, op>>
Ordered == \A i \in 1..3 : b[i] # <<>> => b[i][1] <= b[i][2]
Grows == [][op'[1] \in {"add2", "add3", "addBox"} => \A i \in 1..3 : b[i] # <<>> => b'[i][1] <= b[i][1] /\ b[i][2] <= b'[i][2]]_<<r, q, b, c, n, op>>
=============================================================================
