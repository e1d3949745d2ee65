-------------------------------- MODULE MCStr -------------------------------
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS NVars, Chars, MaxLen, Emit
VARIABLES txt, ret, thrown, op
Vars == 1..NVars
S == INSTANCE Str
View == <<txt>>
Init == S!Init /\ op = <<"new">>
Idx == -1..(MaxLen + 1)
Next ==
    \/ \E v, w \in Vars : S!Assign(v, w) /\ op' = <<"assign", v, w>>
    \/ \E v, w \in Vars : S!AppendS(v, w) /\ op' = <<"append", v, w>>
    \/ \E v \in Vars, c \in Chars : S!AppendC(v, c) /\ op' = <<"appendc", v, c>>
    \/ \E v, w, x \in Vars : S!Plus(v, w, x) /\ op' = <<"plus", v, w, x>>
    \/ \E v \in Vars, i \in Idx, c \in Chars : S!InsertC(v, i, c) /\ op' = <<"insertc", v, i, c>>
    \/ \E v, w \in Vars, i \in Idx : S!InsertS(v, i, w) /\ op' = <<"inserts", v, i, w>>
    \/ \E v \in Vars, i \in Idx : S!DeleteC(v, i) /\ op' = <<"deletec", v, i>>
    \/ \E v \in Vars, i \in Idx, n \in 0..2 : S!DeleteR(v, i, n) /\ op' = <<"deleter", v, i, n>>
    \/ \E v \in Vars, i \in Idx, c \in Chars : S!SetC(v, i, c) /\ op' = <<"setc", v, i, c>>
    \/ \E v \in Vars : S!Clear(v) /\ op' = <<"clear", v>>
    \/ \E v, w \in Vars, b \in Idx, e \in Idx : S!TakeSub(v, w, b, e) /\ op' = <<"sub", v, w, b, e>>
    \/ \E v, w \in Vars : S!TakeReverse(v, w) /\ op' = <<"reverse", v, w>>
    \/ \E v, w \in Vars : S!TakeUpper(v, w) /\ op' = <<"upper", v, w>>
    \/ \E v, w \in Vars : S!TakeTrim(v, w) /\ op' = <<"trim", v, w>>
    \/ \E v, w, a, b \in Vars : S!TakeReplS(v, w, a, b) /\ op' = <<"repls", v, w, a, b>>
    \/ \E v, w \in Vars : S!EqualT(v, w) /\ op' = <<"eq", v, w>>
Bound == \A v \in Vars : Len(txt[v]) <= MaxLen
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)

\* What the functions have to satisfy among each other
Laws ==
    \A v, w \in Vars :
        LET s == txt[v] t == txt[w] IN
        /\ S!Rev(S!Rev(s)) = s
        /\ S!Compare(s, t) = -S!Compare(t, s) /\ (S!Compare(s, t) = 0 <=> s = t)
        /\ S!Trim(S!Trim(s)) = S!Trim(s)
        /\ \A i \in 0..Len(s) : /\ S!Sub(s, 0, i) \o S!Sub(s, i, Len(s)) = s
                                /\ S!Del(S!Ins(s, i, t), i, Len(t)) = s
        /\ t # <<>> => LET p == S!FirstAt(s, t, 0) q == S!LastAt(s, t, Len(s) - 1) IN
                       /\ (p < 0 <=> q < 0) /\ p <= q
                       /\ (p >= 0 => S!Sub(s, p, p + Len(t)) = t /\ S!Sub(s, q, q + Len(t)) = t)
        /\ S!ReplS(s, t, t) = s
=============================================================================
