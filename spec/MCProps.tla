------------------------------- MODULE MCProps ------------------------------
\* All histories of three properties over a few values, with every comparison in every state.
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, Editors, Texts, Wholes, Reals, MaxSteps, Others
VARIABLES p, v, n, op
M == INSTANCE Props
View == <<p, v, n>>
WSet == {<<0, 0, 256>>, <<0, 0, 1>>}
WSet3 == {<<0, 0, 256>>, <<0, 0, 1>>, <<-8, 0, 0>>}
Tx == {<<>>, <<97>>}
Ed == {<<116, 101, 120, 116, 102, 105, 101, 108, 100>>, <<110, 117, 109, 98, 101, 114>>, <<99, 104, 101, 99, 107, 98, 111, 120>>, <<118, 97, 108, 117, 101>>, <<120>>}
Ed1 == {<<118, 97, 108, 117, 101>>}
Descr(e) == <<<<97>>, <<103>>, <<110>>, <<104>>, e, 1, 2, 0>>
Start == [i \in 1..3 |-> M!Fresh(M!Default)]
VStart == [i \in 1..2 |-> M!VNew]
Init == p = Start /\ v = VStart /\ n = 0 /\ op = <<"new">>
S(i, q) == n > 0 /\ n < MaxSteps /\ n' = n + 1 /\ p' = [p EXCEPT ![i] = q] /\ UNCHANGED v
V(i, w) == Others /\ n > 0 /\ n < MaxSteps /\ n' = n + 1 /\ v' = [v EXCEPT ![i] = w] /\ UNCHANGED p
Same == n > 0 /\ UNCHANGED <<p, v, n>>
Next ==
    \/ \E e \in Editors : n = 0 /\ n' = 1 /\ UNCHANGED v /\ p' = [i \in 1..3 |-> M!Fresh(IF i < 3 THEN Descr(e) ELSE M!Default)] /\ op' = <<"both", Descr(e)>>
    \/ \E i \in 1..2, s \in Texts : S(i, M!SetText(p[i], s)) /\ op' = <<"text", i, s>>
    \/ \E i \in 1..2, x \in Wholes : S(i, M!SetWhole(p[i], x)) /\ op' = <<"whole", i, x>>
    \/ \E i \in 1..2, x \in Reals : S(i, M!SetReal(p[i], x)) /\ op' = <<"real", i, x>>
    \/ \E i \in 1..2, x \in 0..1 : S(i, M!SetTruth(p[i], x)) /\ op' = <<"truth", i, x>>
    \/ \E i \in 1..2, x \in Reals, s \in Texts : S(i, M!SetUnit(p[i], x, s)) /\ op' = <<"unit", i, x, s>>
    \/ \E i \in 1..3, j \in 1..3 : i # j /\ S(i, M!Take(p[i], p[j])) /\ op' = <<"take", i, j>>
    \/ \E i \in 1..3, j \in 1..3 : Others /\ i # j /\ S(i, p[j]) /\ op' = <<"assign", i, j>>
    \/ \E i \in 1..3, j \in 1..3 : Same /\ op' = <<"equals", i, j>>
    \/ \E i \in 1..3, j \in 1..3 : Same /\ op' = <<"same", i, j>>
    \/ \E i \in 1..2, x \in Wholes : V(i, M!VAssign(v[i], M!VWhole(x))) /\ op' = <<"vwhole", i, x>>
    \/ \E i \in 1..2, x \in Reals : V(i, M!VAssign(v[i], M!VReal(x))) /\ op' = <<"vreal", i, x>>
    \/ \E i \in 1..2, s \in Texts : V(i, M!VAssign(v[i], M!VText(s))) /\ op' = <<"vtext", i, s>>
    \/ \E i \in 1..2, j \in 1..2 : V(i, M!VAssign(v[i], v[j])) /\ op' = <<"vassign", i, j>>
    \/ \E i \in 1..2 : Others /\ Same /\ op' = <<"vcopy", i>>
    \/ p' = Start /\ v' = VStart /\ n' = 0 /\ op' = <<"new">>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
I == 1..3
\* both comparisons are reflexive and symmetric wherever they are specified, and a value taken over is an equal value
Reflexive == \A i \in I : M!ValueTold(p[i], p[i]) /\ M!ValueEquals(p[i], p[i])
Symmetric == \A i \in I, j \in I : /\ M!ValueTold(p[i], p[j]) = M!ValueTold(p[j], p[i])
                                   /\ M!ValueEquals(p[i], p[j]) = M!ValueEquals(p[j], p[i])
                                   /\ M!EqualTold(p[i], p[j]) = M!EqualTold(p[j], p[i])
                                   /\ (M!EqualTold(p[i], p[j]) => M!Equal(p[i], p[j]) = M!Equal(p[j], p[i]))
Taken == \A i \in I, j \in I : M!ValueEquals(M!Take(p[i], p[j]), p[j]) /\ M!Take(p[i], p[j]).d = p[i].d
\* the equality of properties sees less than that of values
Weaker == \A i \in {1}, j \in {2} : M!ValueEquals(p[i], p[j]) /\ M!EqualTold(p[i], p[j]) /\ p[i].type = p[j].type /\ M!Editor(p[i]) \in M!EditsText \cup M!EditsWhole \cup M!EditsTruth \cup M!EditsValue /\ M!Id(p[i]) = M!Id(p[j]) => M!Equal(p[i], p[j])
\* the description never changes but with a new property or by assignment of a whole one
Described == [][\A i \in 1..2 : op'[1] \in {"both", "new", "assign"} \/ p'[i].d = p[i].d]_<<p, v, n, op>>
=============================================================================
