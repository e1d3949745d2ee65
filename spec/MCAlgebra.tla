------------------------------ MODULE MCAlgebra -----------------------------
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, Part, Entries, Coords, MaxSteps
E1 == {-1, 0, 2}
C1 == {-1, 0, 2}
C2 == {-2, 0, 1, 2}
VARIABLES a, b, n, op
M == INSTANCE Algebra
View == <<a, b, n>>
Init == a = <<>> /\ b = <<>> /\ n = 0 /\ op = <<"new">>
Grid(r, c, s) == [1..r -> [1..c -> s]]
As == Grid(1, 1, Entries) \cup Grid(1, 2, Entries) \cup Grid(2, 1, Entries) \cup Grid(2, 2, Entries) \cup Grid(2, 3, {0, 1})
      \cup {<<<<2, 0, 1>>, <<-1, 3, 0>>, <<0, 1, 1>>>>, <<<<1, 2, 0>>, <<2, -1, 3>>, <<0, 3, 2>>>>, <<<<4, 0, 0>>, <<0, -2, 0>>, <<0, 0, 1>>>>,
            <<<<1, 2, 3>>, <<4, 5, 6>>, <<7, 8, 9>>>>, <<<<1, 2>>, <<0, 5>>, <<3, -1>>, <<1, 1>>>>,
            <<<<1, 2, 0, 1>>, <<0, 3, 1, -1>>, <<2, 0, 1, 4>>, <<1, 1, -2, 1>>>>, <<<<0, 1, 0, 0>>, <<0, 0, 2, 0>>, <<0, 0, 0, 3>>, <<4, 0, 0, 0>>>>}
Bs == {<<<<3>>>>, <<<<1, 2>>>>, <<<<0>>, <<3>>>>, <<<<1, 2>>, <<3, 4>>>>, <<<<0, -1>>, <<1, 0>>>>, <<<<1, 0, 2>>, <<0, -1, 1>>>>, <<<<1, 2>>, <<0, 1>>, <<2, 0>>>>,
       <<<<1, 0, 2>>, <<0, 1, 3>>, <<5, 0, 1>>>>, <<<<1, 0, 2, 1>>, <<0, 1, 3, 0>>, <<5, 0, 1, 2>>, <<-1, 0, 0, 2>>>>}
Mats == Part = "mat"
Chg == Mats /\ n >= 2 /\ n < MaxSteps /\ n' = n + 1
Ask == n > 0 /\ UNCHANGED <<a, b, n>>
AskM == Mats /\ Ask
R == M!Rows(a)
C == M!Cols(a)
Trf == Part = "trf"
Frm == Trf /\ n < MaxSteps - 1 /\ n' = n + 1
Vec == Part = "vec" /\ UNCHANGED <<a, b, n>>
V3 == {<<x, y, z>> : x, y, z \in Coords}
V3f == {<<0, 0, 0>>, <<1, 2, 2>>, <<-2, 1, 2>>, <<2, 2, 1>>, <<3, -1, 0>>, <<-3, 1, 0>>, <<1, 1, 1>>, <<0, 0, 2>>}
V2 == {<<x, y>> : x, y \in Coords \cup {3}}
Units == {<<<<0, 0, 1>>, 1>>, <<<<0, 0, -1>>, 1>>, <<<<1, 0, 0>>, 1>>, <<<<0, -1, 0>>, 1>>, <<<<3, 4, 0>>, 5>>, <<<<1, -2, 2>>, 3>>, <<<<2, 3, 6>>, 7>>, <<<<0, 7, 24>>, 25>>}
Next ==
    \/ Mats /\ n = 0 /\ n' = 1 /\ UNCHANGED b /\ \E x \in As : a' = x /\ op' = <<"mat", x>>
    \/ Mats /\ n = 0 /\ n' = 1 /\ UNCHANGED b /\ \E r, c \in 1..3 : a' = M!Zeros(r, c) /\ op' = <<"zero", r, c>>
    \/ Mats /\ n = 1 /\ n' = 2 /\ UNCHANGED a /\ \E x \in Bs : b' = x /\ op' = <<"rhs", x>>
    \/ Mats /\ n = 1 /\ n' = 2 /\ UNCHANGED a /\ b' = a /\ op' = <<"copy">>
    \/ Chg /\ a' = b /\ b' = a /\ op' = <<"swap">>
    \/ Chg /\ UNCHANGED b /\ \E i \in {1, R}, j \in {1, C} : a' = [a EXCEPT ![i][j] = 7] /\ op' = <<"set", i, j, 7>>
    \/ Chg /\ UNCHANGED b /\ a' = [a EXCEPT ![R][1] = @ - 2] /\ op' = <<"inc", R, 1, -2>>
    \/ Chg /\ UNCHANGED b /\ a' = M!Diag(a, 5) /\ op' = <<"diag", 5>>
    \/ Chg /\ UNCHANGED b /\ a' = M!Zeros(R, C) /\ op' = <<"zeros">>
    \/ Chg /\ UNCHANGED b /\ a' = M!Transpose(a) /\ op' = <<"transpose">>
    \/ Chg /\ UNCHANGED b /\ \E r, c \in 0..1 : r < R /\ c < C /\ a' = M!Insert(a, b, r, c) /\ op' = <<"insert", r, c>>
    \/ Chg /\ UNCHANGED b /\ a' = (IF C = M!Rows(b) THEN M!Mul(a, b) ELSE a) /\ op' = <<"mul">>
    \/ Chg /\ UNCHANGED b /\ a' = (IF M!SameSize(a, b) THEN M!Plus(a, b) ELSE a) /\ op' = <<"plus">>
    \/ Chg /\ UNCHANGED b /\ a' = (IF M!SameSize(a, b) THEN M!Minus(a, b) ELSE a) /\ op' = <<"minus">>
    \/ Chg /\ UNCHANGED b /\ \E k \in {-1, 3} : a' = M!Times(k, a) /\ op' = <<"times", k>>
    \/ AskM /\ op' = <<"det">>
    \/ AskM /\ R = C /\ R <= 4 /\ M!Det(a) # 0 /\ op' = <<"inverse">>
    \/ AskM /\ R # C /\ op' = <<"noinverse">>
    \/ AskM /\ op' = <<"facts">>
    \/ AskM /\ \E k \in 1..4 : op' = <<"apply", [i \in 1..k |-> 2 * i - 3]>>
    \/ AskM /\ op' = <<"apply3", <<3, -1, 2>>>>
    \/ AskM /\ a = M!Transpose(a) /\ R <= 3 /\ op' = <<"eigen">>
    \/ Frm /\ b' = a /\ a' = M!Identity(4) /\ op' = <<"identity">>
    \/ Frm /\ b' = a /\ \E d \in V3f : a' = M!Moving(d) /\ op' = <<"moving", d>>
    \/ Frm /\ b' = a /\ \E d \in V3f : a' = M!Scaling(d) /\ op' = <<"scaling", d>>
    \/ Frm /\ b' = a /\ \E d \in V3f, k \in {-1, 2} : a' = M!ScalingAt(d, k) /\ op' = <<"scalingAt", d, k>>
    \/ Frm /\ b' = a /\ \E d \in V3f, i \in 1..3 : a' = M!Mirroring(d, M!Axis(i)) /\ op' = <<"mirroring", d, M!Axis(i)>>
    \/ Frm /\ b' = a /\ \E q \in -1..4 : a' = M!RotationZ(q) /\ op' = <<"rotationZ", q>>
    \/ Frm /\ b' = a /\ \E d \in V3f, i \in 1..3, q \in {1, 2, 3} : a' = M!Rotation(d, M!Axis(i), q) /\ op' = <<"rotation", d, M!Axis(i), q>>
    \/ Trf /\ n >= 2 /\ n < MaxSteps /\ R = 4 /\ M!Rows(b) = 4 /\ n' = n + 1 /\ UNCHANGED b /\ a' = M!Mul(a, b) /\ op' = <<"mul">>
    \/ Trf /\ Ask /\ \E p \in {<<0, 0, 0>>, <<1, -2, 3>>} : op' = <<"image", p>>
    \/ Trf /\ Ask /\ op' = <<"length", 3>>
    \/ Trf /\ Ask /\ \E q \in 0..3 : M!Image(a, M!Turn3(M!X, M!Z, 1, q)) # M!Image(a, M!Origin) /\ M!Image(a, M!Turn3(M!X, M!Z, 1, q))[3] = M!Image(a, M!Origin)[3] /\ op' = <<"angle", q>>
    \/ Vec /\ \E p \in {<<0, 0, 0>>, <<1, 2, -1>>}, u \in Units, v \in V3f, q \in 0..3 : op' = <<"turned", p, u[1], u[2], v, q>>
    \/ Vec /\ \E p \in {<<0, 0, 0>>, <<1, 2, -1>>}, u \in Units, v \in V3f : op' = <<"mirrored", p, u[1], u[2], v>>
    \/ Vec /\ \E u \in Units, v \in {<<1, 0, 0>>, <<2, -1, 3>>} : op' = <<"ocs", u[1], u[2], v>>
    \/ Vec /\ \E u, v \in V3 \ {M!Origin} : M!Dot(u, u) = M!Dot(v, v) /\ op' = <<"uv", u, v, <<1, -1, 2>>>>
    \/ Vec /\ \E u \in V3, v \in V3f : op' = <<"v3", u, v, 3>>
    \/ Vec /\ \E u, v \in V2 : op' = <<"v2", u, v, -2>>
    \/ Vec /\ \E u \in V3 : op' = <<"conv", u, 7>>
    \/ Vec /\ \E i, j \in 0..4 : op' = <<"vn", [k \in 1..i |-> k - 2], [k \in 1..j |-> 3 - k], 2>>
    \/ Vec /\ \E u \in V3 \cup V2 : op' = <<"len", u>>
    \/ Vec /\ \E u, v \in V3 \ {M!Origin} : op' = <<"between", u, v>>
    \/ Vec /\ \E u, v \in V2 \ {<<0, 0>>} : op' = <<"between", u, v>>
    \/ Vec /\ \E u \in V2, q \in -4..4 : op' = <<"turn2", u, q>>
    \/ Vec /\ \E u \in V3, q \in {-1, 1, 2, 3} : op' = <<"turn3", u, q>>
    \/ Vec /\ \E u, v, w \in V3f : op' = <<"independent", u, v, w>>
    \/ Vec /\ \E u, v, w \in V2 : M!Cross2(u, v) # 0 /\ op' = <<"solve", u, v, w>>
    \/ a' = <<>> /\ b' = <<>> /\ n' = 0 /\ op' = <<"new">>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
Sq(x) == M!Rows(x) = M!Cols(x) /\ x # <<>>
\* the laws of determinants, products, inverses and transposition
Laws == /\ Sq(a) => /\ M!Mul(a, M!Adjugate(a)) = M!Times(M!Det(a), M!Identity(R))
                    /\ M!Det(M!Transpose(a)) = M!Det(a)
        /\ Sq(a) /\ Sq(b) /\ M!SameSize(a, b) => M!Det(M!Mul(a, b)) = M!Det(a) * M!Det(b) /\ M!Trace(M!Mul(a, b)) = M!Trace(M!Mul(b, a))
        /\ a # <<>> /\ b # <<>> /\ C = M!Rows(b) => M!Transpose(M!Mul(a, b)) = M!Mul(M!Transpose(b), M!Transpose(a))
        /\ a # <<>> => M!Transpose(M!Transpose(a)) = a /\ M!Mul(M!Identity(R), a) = a /\ M!RowNorm(a) <= R * C * M!ColNorm(a)
\* mirrorings undo themselves, rotations keep distances and orientation
Rigid == [][/\ op'[1] = "mirroring" => M!Mul(a', a') = M!Identity(4) /\ M!Det(a') = -1
            /\ op'[1] \in {"rotation", "rotationZ"} => M!Mul(M!Mul(a', a'), M!Mul(a', a')) = M!Identity(4) /\ M!Det(a') = 1]_<<a, b, n, op>>
\* a product transforms first by the right factor
Chain == [][(op'[1] = "mul" /\ Trf) => M!Image(a', <<1, -2, 3>>) = M!Image(a, M!Image(b, <<1, -2, 3>>))]_<<a, b, n, op>>
Laws3 == (Part = "vec") => \A u, v \in V3f : M!Dot(u, M!Cross(u, v)) = 0 /\ M!Cross(u, v) = M!Mult(-1, M!Cross(v, u))
           /\ M!Dot(M!Cross(u, v), M!Cross(u, v)) + M!Dot(u, v) * M!Dot(u, v) = M!Dot(u, u) * M!Dot(v, v)
=============================================================================
