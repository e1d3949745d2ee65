------------------------------- MODULE MCText -------------------------------
\* All small triples of texts, for the query operations.
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Chars, MaxA, MaxB, Emit
VARIABLES txt, op
S == INSTANCE StrFn
View == <<txt>>
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE Texts(n - 1) \cup {Append(t, c) : t \in Texts(n - 1), c \in Chars}
Init == txt = <<<<>>, <<>>>> /\ op = <<"new">>
\* first the two texts, then every question about them
Next ==
    \/ txt[1] = <<>> /\ txt[2] = <<>> /\ \E t \in Texts(MaxA) : txt' = <<t, txt[2]>> /\ op' = <<"lit", 1, t>>
    \/ txt[1] # <<>> /\ txt[2] = <<>> /\ \E t \in Texts(MaxB) : txt' = <<txt[1], t>> /\ op' = <<"lit", 2, t>>
    \/ /\ txt[1] # <<>> /\ UNCHANGED txt
       /\ \/ txt[2] # <<>> /\ \E i \in -1..(MaxA + 1) : \/ op' = <<"idxs", 1, 2, i>>
                                                        \/ op' = <<"lidxs", 1, 2, i>>
                                                        \/ i >= 0 /\ op' = <<"at", 1, i, 2>>
          \/ op' = <<"starts", 1, 2>>
          \/ op' = <<"eq", 1, 2>>
          \/ op' = <<"natural", 1, 2>>
          \/ op' = <<"hash", 1, 2, Len(txt[1]) % 2>>
          \/ \E c \in Chars : \/ op' = <<"count", 1, c>>
                              \/ op' = <<"split", 1, c>>
                              \/ op' = <<"idxc", 1, c, Len(txt[2])>>
                              \/ op' = <<"lidxc", 1, c>>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
Agree ==
    LET s == txt[1] t == txt[2] IN
    /\ S!Compare(s, t) = -S!Compare(t, s)
    /\ (S!Compare(s, t) = 0) = (s = t)
    /\ S!CompareNatural(s, t) = -S!CompareNatural(t, s)
    /\ S!At(s, 0, t) = (Len(t) <= Len(s) /\ S!Sub(s, 0, Len(t)) = t)
    /\ t # <<>> => (S!FirstAt(s, t, 0) >= 0) = (\E i \in 0..Len(s) : S!At(s, i, t))
=============================================================================
