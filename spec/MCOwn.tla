------------------------------- MODULE MCOwn --------------------------------
EXTENDS Naturals, Sequences, FiniteSets, TLC, Walk
CONSTANTS N, MaxHeld, MaxPool, MaxSteps, MaxCur, WithTx, WithHist, Modes, Emit
VARIABLES st, mode, held, pool, ref, cur, und, red, tx, level, hi
VARIABLE op
Objs == 1..N
O == INSTANCE Own
View == <<st, mode, held, pool, ref, cur, und, red, tx, level, hi>>
Init == O!Init /\ op = <<"new">>
Next ==
    \/ \E o \in Objs, m \in Modes : o = 1 + Cardinality({x \in Objs : st[x] # 0}) /\ O!New(o, m) /\ op' = <<"make", o, m>>
    \/ \E o \in Objs : \/ O!Retain(o) /\ op' = <<"retain", o>>
                       \/ O!Release(o) /\ op' = <<"release", o>>
                       \/ O!Autorelease(o) /\ op' = <<"autorelease", o>>
                       \/ \E n \in 0..N : \/ ~WithHist /\ O!Set(o, n) /\ op' = <<"set", o, n>>
                                          \/ WithHist /\ O!Edit(o, n) /\ op' = <<"edit", o, n>>
    \/ O!Drain /\ op' = <<"drain">>
    \/ WithHist /\ \/ O!Close /\ op' = <<"close">>
                   \/ O!Undo /\ op' = <<"undo">>
                   \/ O!Redo /\ op' = <<"redo">>
                   \/ O!Clear /\ op' = <<"clear">>
                   \/ O!ClearUndo /\ op' = <<"clearu">>
                   \/ O!ClearRedo /\ op' = <<"clearr">>
    \/ WithTx /\ \/ O!Begin /\ op' = <<"begin">>
                 \/ O!Commit /\ op' = <<"commit">>
                 \/ O!Rollback /\ op' = <<"rollback">>
Bound ==
    /\ \A o \in Objs : held[o] <= MaxHeld /\ pool[o] <= MaxPool
    /\ Len(und) + Len(red) <= MaxSteps /\ Len(cur) <= MaxCur /\ Len(tx) <= MaxCur /\ level <= 2
    /\ \A i \in DOMAIN und : Len(und[i]) <= MaxCur
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
AliveIffOwned == O!AliveIffOwned
NoDangling == O!NoDangling
\* Nothing is ever revived.
NoRevival == [][\A o \in Objs : st[o] = 2 => st'[o] = 2]_<<View, op>>
=============================================================================
