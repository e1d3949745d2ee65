-------------------------------- MODULE MCMap -------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Walk
CONSTANTS Emit, Kind, NK, NV
\* order: the keys in the order they came in, which decides about their places
VARIABLES map, mass, ret, order, op
\* the first two have the same hash code
Aa == <<65, 97>>
BB == <<66, 66>>
\* or all of them have, or they share a place though their hash codes differ
AllKeys == CASE Kind = "mixed" -> <<Aa, BB, <<97>>, <<>>, <<104>>>>
             [] Kind = "same" -> <<Aa \o Aa, BB \o BB, Aa \o BB, BB \o Aa>>
             [] Kind = "place" -> <<<<97>>, <<104>>, <<111>>, <<118>>>>
Keys == {AllKeys[i] : i \in 1..NK}
M == INSTANCE Map
View == <<map, order>>
Init == M!Init /\ order = <<>> /\ op = <<"new">>
Ordered == Kind # "mixed"
Came(k) == order' = IF Ordered /\ k \notin DOMAIN map THEN order \o <<k>> ELSE order
Went(k) == order' = SelectSeq(order, LAMBDA x : x # k)
Next ==
    \/ \E k \in Keys, v \in 1..NV, h \in 0..2 : M!Put(k, v) /\ Came(k) /\ op' = <<"put", k, v, h>>
    \/ \E k \in Keys : M!Remove(k) /\ Went(k) /\ op' = <<"remove", k, 0>>
    \/ \E k \in Keys : M!Get(k) /\ UNCHANGED order /\ op' = <<"get", k, 1>>
    \/ \E k \in Keys : M!Contains(k) /\ UNCHANGED order /\ op' = <<"has", k, 2>>
    \/ UNCHANGED <<map, mass, ret, order>> /\ op' = <<"keys">>
    \/ UNCHANGED <<map, mass, ret, order>> /\ op' = <<"keysNow">>
    \/ UNCHANGED <<map, mass, ret, order>> /\ op' = <<"valuesNow">>
    \/ UNCHANGED <<map, mass, ret, order>> /\ op' = <<"values">>
    \/ M!Clear /\ order' = <<>> /\ op' = <<"clear">>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
Typed == DOMAIN map \subseteq Keys
\* what was put last is what is found, until it is removed
PutGet == [][op'[1] = "put" => (map'[op'[2]] = op'[3] /\ \A k \in DOMAIN map \ {op'[2]} : map'[k] = map[k])]_<<map, op>>
RemoveGone == [][op'[1] = "remove" => (op'[2] \notin DOMAIN map' /\ \A k \in DOMAIN map \ {op'[2]} : map'[k] = map[k])]_<<map, op>>
=============================================================================
