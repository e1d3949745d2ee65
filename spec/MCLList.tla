------------------------------ MODULE MCLList -------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Walk
CONSTANTS ND, MaxLen, MaxSteps, Emit
VARIABLES lst, base, open, und, red, tracked, ret, op
Data == 1..ND
L == INSTANCE LList
View == <<lst, IF open THEN base ELSE <<>>, open, und, red, tracked>>
Init == L!Init /\ op = <<"new">>
Next ==
    \/ \E d \in Data : L!Add(d) /\ op' = <<"add", d>>
    \/ \E d \in Data : L!Remove(d) /\ op' = <<"remove", d>>
    \/ \E d, e \in Data : L!AddBefore(d, e) /\ op' = <<"before", d, e>>
    \/ \E d, e \in Data : L!Swap(d, e) /\ op' = <<"swap", d, e>>
    \/ L!Clear /\ op' = <<"clear">>
    \/ L!Close /\ op' = <<"close">>
    \/ L!Undo /\ op' = <<"undo">>
    \/ L!Redo /\ op' = <<"redo">>
    \/ \E t \in BOOLEAN : L!Forget(t) /\ op' = <<"forget", IF t THEN 1 ELSE 0>>
Bound == Len(lst) <= MaxLen /\ Len(und) + Len(red) <= MaxSteps
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
Linked == L!Linked
=============================================================================
