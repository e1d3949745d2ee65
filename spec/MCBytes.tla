------------------------------- MODULE MCBytes ------------------------------
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, MaxL, MaxK, NVar
VARIABLES by, nul, high, stk, ret, thrown, op
M == INSTANCE Bytes WITH BVars <- 1..NVar
View == <<by, nul, high, stk>>
Vs == 1..NVar
Init == M!Init /\ op = <<"new">>
Zeros(v, n) == [k \in 1..(IF n > Len(by[v]) THEN n - Len(by[v]) ELSE 0) |-> 0]
Next ==
    \/ stk = <<>> /\ \E v \in Vs, s \in {<<>>, <<7>>, <<9, 0, 8>>} : M!Make(v, s) /\ op' = <<"make", v, s>>
    \/ stk = <<>> /\ \E v \in Vs : M!MakeZ(v, <<9, 0, 8>>) /\ op' = <<"makez", v, <<9, 0, 8>>>>
    \/ stk = <<>> /\ \E v \in Vs : M!MakeNull(v) /\ op' = <<"makenull", v>>
    \/ stk = <<>> /\ \E v \in Vs, w \in Vs : M!Copy(v, w) /\ op' = <<"assign", v, w>>
    \/ stk = <<>> /\ \E v \in Vs, w \in Vs : v # w /\ M!Copy(v, w) /\ op' = <<"copy", v, w>>
    \/ stk = <<>> /\ \E v \in Vs, i \in 0..(MaxL - 1) : M!Set(v, i, 5) /\ op' = <<"set", v, i, 5>>
    \/ stk = <<>> /\ \E v \in Vs, i \in 0..(MaxL - 1) : M!Get(v, i) /\ op' = <<"get", v, i>>
    \/ stk = <<>> /\ \E v \in Vs : M!Fill(v, 200) /\ op' = <<"fill", v, 200>>
    \/ stk = <<>> /\ \E v \in Vs : M!Swap(v, 0, 7) /\ op' = <<"swap", v, 0, 7>>
    \/ stk = <<>> /\ \E v \in Vs, w \in Vs, t \in 0..MaxL, s \in 0..1, n \in 0..2 : M!Splice(v, t, s, w, n) /\ op' = <<"splice", v, t, s, w, n>>
    \/ stk = <<>> /\ \E v \in Vs, n \in 0..MaxL : M!Resize(v, n, Zeros(v, n)) /\ op' = <<"resize", v, n>>
    \/ stk = <<>> /\ \E v \in Vs : M!Sort(v) /\ op' = <<"sort", v>>
    \/ stk = <<>> /\ \E v \in Vs, w \in Vs : M!Equal(v, w) /\ op' = <<"equal", v, w>>
    \/ (\A v \in Vs : nul[v]) /\ \E x \in 1..2 : Len(stk) < MaxK /\ M!Push(x) /\ op' = <<"push", x>>
    \/ M!Pop /\ op' = <<"pop">>
    \/ M!Top /\ op' = <<"top">>
    \/ M!SetTop(3) /\ op' = <<"settop", 3>>
    \/ (\A v \in Vs : nul[v]) /\ \E n \in 2..3 : M!Nth(n) /\ op' = <<"nth", n>>
    \/ (\A v \in Vs : nul[v]) /\ M!Reverse /\ op' = <<"reverse">>
    \/ (\A v \in Vs : nul[v]) /\ M!ClearStack /\ op' = <<"clearstack">>
Bound == \A v \in Vs : Len(by[v]) <= MaxL
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
Typed == \A v \in Vs : Len(by[v]) <= high[v] /\ (nul[v] => by[v] = <<>>)
SortOk == \A v \in Vs : LET s == M!Sorted(by[v]) IN Len(s) = Len(by[v]) /\ \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]
=============================================================================
