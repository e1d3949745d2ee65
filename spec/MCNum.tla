-------------------------------- MODULE MCNum -------------------------------
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, N, Kinds
VARIABLES on, op
M == INSTANCE Num
View == <<on>>
Init == on = 1 /\ op = <<"new">>
Z == (-N)..N
Digits == <<0, 1, 2, 3>>
Bytes == {0, 1, 2, 127, 255}
Next ==
    \/ UNCHANGED on /\ \E x \in Z, y \in Z \ {0} : op' = <<"div", x, y>>
    \/ UNCHANGED on /\ \E x \in Z : op' = <<"mod0", x>>
    \/ UNCHANGED on /\ \E x \in (-2 * N)..(2 * N) : op' = <<"round", x>>
    \/ UNCHANGED on /\ \E x \in (-2 * N)..(2 * N), k \in 0..3 : op' = <<"frac", x, k>>
    \/ UNCHANGED on /\ \E m \in {0, 1, 999999}, x \in 0..15, k \in 0..3 : op' = <<"fracBig", m, x, k>>
    \/ UNCHANGED on /\ \E m \in {0, 1, 999999}, x \in 0..15, k \in 0..3 : op' = <<"fracBig", -m, -x, k>>
    \/ UNCHANGED on /\ \E m \in {-3, 0, 5}, x \in {0, 1, 999999999}, y \in {3, -7}, z \in {0, 1, 2} : op' = <<"divBig", m, x, y, M!Sign(y) * z>>
    \/ UNCHANGED on /\ \E b \in {-1, 0, 3}, x \in {-12, -11, 0, 1, 9, 11}, y \in {0, 8, -1, 50} : M!Abs(x - y) # 10 /\ op' = <<"cmp", b, x, y>>
    \/ UNCHANGED on /\ \E x \in Z : op' = <<"sign", x>>
    \/ UNCHANGED on /\ \E x \in 1..(4 * N) : op' = <<"pow2", 0, x>>
    \/ UNCHANGED on /\ \E i \in 1..32, k \in {-1, 0, 1} :
         LET p == M!AllPowers[i] IN
         /\ <<p[1], k>> # <<32768, 1>> /\ ~(p[1] > 0 /\ k = -1) /\ p[2] + k >= 0 /\ p # <<0, 0>> /\ (p[1] > 0 \/ p[2] + k > 0)
         /\ op' = <<"pow2", p[1], p[2] + k>>
    \/ UNCHANGED on /\ \E i \in 18..32 : op' = <<"pow2", M!AllPowers[i][1] - 1, 65535>>
    \/ UNCHANGED on /\ \E x \in 0..N : op' = <<"nopow", -x>>
    \/ UNCHANGED on /\ \E k \in Kinds, x, y \in Bytes : op' = <<"swap", k, x, y>>
    \/ UNCHANGED on /\ \E k \in Kinds, x \in Bytes : op' = <<"swapSame", k, x>>
    \/ UNCHANGED on /\ \E x \in {-5, 0, 3}, d \in {0, 1, 2, 100} : op' = <<"random", x, x + d>>
    \/ UNCHANGED on /\ op' = <<"unit">>
    \/ UNCHANGED on /\ \E x, y \in {-3, 0, 5}, k \in 0..8 : op' = <<"mix", x, y, k>>
    \/ UNCHANGED on /\ \E x, y \in {-3, 0, 5}, b \in {-1, 2}, w \in {1, 4}, k \in 0..4 : k <= w /\ op' = <<"mix5", x, y, b, b + w, b + k>>
    \/ UNCHANGED on /\ \E x \in Z : op' = <<"deg", 15 * x>>
    \/ UNCHANGED on /\ op' = <<"nan">>
    \/ UNCHANGED on /\ op' = <<"eps">>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
\* the descriptions have exactly one answer
Q == (-4 * N)..(4 * N)
Unique == TLCGet("level") = 1 =>
    /\ \A x \in Z, y \in Z \ {0} : \E d \in Q \X Q : M!IsDiv(x, y, d) /\ d = <<x \div y, x - y * (x \div y)>> /\ \A e \in {-1, 1} : ~M!IsDiv(x, y, <<d[1] + e, x - y * (d[1] + e)>>)
    /\ \A x \in Z : \E k \in Z : M!IsRound(x, 8, k) /\ \A j \in Z \ {k} : ~M!IsRound(x, 8, j)
    /\ \A d \in -20..20 : LET c == M!Compared(d) IN c[1] + c[3] + c[5] = 1 /\ c[4] = 1 - c[5] /\ c[6] = 1 - c[3]
=============================================================================
