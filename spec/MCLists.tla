------------------------------- MODULE MCLists ------------------------------
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, MaxL, MaxS, NVar, NT
VARIABLES lst, tok, ret, thrown, op
L == INSTANCE Lists WITH LVars <- 1..NVar
View == <<lst, tok>>
Vs == 1..NVar
Ts == {<<<<97>>, <<97, 98>>, <<>>, <<66>>>>[i] : i \in 1..NT}
RECURSIVE Texts(_)
Texts(m) == IF m = 0 THEN {<<>>} ELSE Texts(m - 1) \cup {Append(t, c) : t \in Texts(m - 1), c \in {97, 44, 59}}
Init == L!Init /\ op = <<"new">>
Next ==
    \/ \E v \in Vs, t \in Ts : L!Append_(v, t) /\ op' = <<"append", v, t>>
    \/ \E v \in Vs, t \in Ts : L!Remove(v, t) /\ op' = <<"remove", v, t>>
    \/ \E v \in Vs, i \in 0..1 : L!AppendOwn(v, i) /\ op' = <<"appendown", v, i>>
    \/ \E v \in Vs, i \in 0..1 : L!RemoveOwn(v, i) /\ op' = <<"removeown", v, i>>
    \/ \E v \in Vs, i \in -1..MaxL : L!PutAt(v, i, <<97>>) /\ op' = <<"set", v, i, <<97>>>>
    \/ \E v \in Vs, i \in -1..MaxL : L!Get(v, i) /\ op' = <<"get", v, i>>
    \/ \E v \in Vs : L!Sort(v) /\ op' = <<"sort", v>>
    \/ \E v \in Vs : L!Clear(v) /\ op' = <<"clear", v>>
    \/ \E v \in Vs, w \in Vs : L!Assign(v, w) /\ op' = <<"assign", v, w>>
    \/ \E v \in Vs, t \in Ts : L!Contains(v, t) /\ op' = <<"contains", v, t>>
    \/ \E v \in Vs : L!JoinAll(v, 44) /\ op' = <<"join", v, 44>>
    \/ \E v \in Vs, n \in 0..1 : L!Make(v, n) /\ op' = <<"make", v, n>>
    \/ lst[1] = <<>> /\ tok = <<>> /\ \E s \in Texts(MaxS), k \in 0..1 : L!Start(s, <<44, 59>>, k = 1) /\ op' = <<"tok", s, <<44, 59>>, k>>
    \/ lst[1] = <<>> /\ tok = <<>> /\ \E s \in Texts(MaxS) : L!Split(1, s, 44) /\ op' = <<"split", 1, s, 44>>
    \/ lst[1] = <<>> /\ L!More /\ op' = <<"more">>
    \/ lst[1] = <<>> /\ L!Take /\ op' = <<"take">>
Bound == \A v \in Vs : Len(lst[v]) <= MaxL
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
SortedInv == \A v \in Vs : LET s == L!Sorted(lst[v]) IN
    /\ Len(s) = Len(lst[v])
    /\ \A i \in 1..(Len(s) - 1) : L!Cmp(s[i], s[i + 1], 1) <= 0
    /\ \A t \in Ts : Len(L!Without(s, t)) = Len(L!Without(lst[v], t))
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(Tail(s))
\* with the delimiters kept the tokens make up the text; without, they are free of delimiters and not empty
TokenInv == \A s \in Texts(IF MaxS < 3 THEN MaxS ELSE 3) :
    /\ Cat(L!Tokens(s, <<44, 59>>, TRUE, 1, 1)) = s
    /\ \A i \in DOMAIN L!Tokens(s, <<44, 59>>, FALSE, 1, 1) :
        LET t == L!Tokens(s, <<44, 59>>, FALSE, 1, 1)[i] IN t # <<>> /\ \A k \in DOMAIN t : t[k] = 97
=============================================================================
