------------------------------- MODULE MCDiff -------------------------------
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, Values, MaxLen
VARIABLES u, v, op
D == INSTANCE Diff
View == <<u, v>>
Init == u = <<>> /\ v = <<>> /\ op = <<"new">>
Obj(side, s, x) == <<side + Len(s) + 1, x>>
Next ==
    \/ Len(u) < MaxLen /\ UNCHANGED v /\ \E x \in Values : u' = u \o <<Obj(100, u, x)>> /\ op' = <<"u", Len(u) + 101, x>>
    \/ Len(v) < MaxLen /\ UNCHANGED u /\ \E x \in Values : v' = v \o <<Obj(200, v, x)>> /\ op' = <<"v", Len(v) + 201, x>>
    \/ UNCHANGED <<u, v>> /\ op' = <<"solve">>
    \/ u' = <<>> /\ v' = <<>> /\ op' = <<"clear">>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
Ab(x) == IF x < 0 THEN -x ELSE x
Dis == D!Distance(u, v)
Metric == /\ Dis = D!Distance(v, u)
          /\ (Dis = 0) <=> [i \in DOMAIN u |-> u[i][2]] = [i \in DOMAIN v |-> v[i][2]]
          /\ Ab(Len(u) - Len(v)) <= Dis /\ Dis <= (IF Len(u) < Len(v) THEN Len(v) ELSE Len(u))
\* one object more changes it by one at most
Lipschitz == [][op'[1] \in {"u", "v"} => Ab(D!Distance(u', v') - D!Distance(u, v)) <= 1]_<<u, v, op>>
\* some script of that length explains the two, and no shorter one does
Changes == {<<"A", v[j]>> : j \in DOMAIN v} \cup {<<"D", u[i]>> : i \in DOMAIN u} \cup {<<"M", u[i], v[j]>> : i \in DOMAIN u, j \in DOMAIN v}
Min2(a, b) == IF a < b THEN a ELSE b
Least == (Len(u) + Len(v) <= 4) =>
    \A k \in 0..Min2(Dis, 3) : (\E s \in [1..k -> Changes] : D!Explains(u, v, s)) <=> k = Dis
=============================================================================
