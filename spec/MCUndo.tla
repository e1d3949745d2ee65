------------------------------- MODULE MCUndo -------------------------------
\* Bounded instance of Undo: every behaviour of a small document is explored; the transitions are printed
\* and later driven through the real library.
EXTENDS Naturals, Sequences, TLC, Walk

CONSTANTS NF, NV, MaxUndo, MaxCur, MaxTx, MaxLevel, WithTx, WithFlags, WithDoc, Raw, Emit

VARIABLES val, cur, undoS, redoS, tx, level, txstat, changed, regen, ret, doc
VARIABLE op

Own(f) == f % 2
U == INSTANCE Undo WITH Fields <- 0..(NF - 1), Objects <- {0, 1}, Owner <- Own

vars == <<val, cur, undoS, redoS, tx, level, txstat, changed, regen, ret, doc>>
\* what distinguishes states when behaviours are enumerated
View == <<val, cur, undoS, redoS, tx, level, txstat, changed, regen, doc>>

Init == U!InitWith(0) /\ op = <<"new">>

HasHist == doc.hist # "none"
Basic ==
    \/ \E f \in 0..(NF - 1), v \in 0..(NV - 1) : U!MayEdit /\
         \/ Raw /\ HasHist /\ U!Edit(f, v) /\ op' = <<"edit", f, v>>
         \/ U!Member(f, v) /\ op' = <<"member", f, v>>
    \/ U!Close /\ op' = <<"close">>
    \/ HasHist /\ U!Undo /\ op' = <<"undo">>
    \/ HasHist /\ U!Redo /\ op' = <<"redo">>
    \/ HasHist /\ U!Clear /\ op' = <<"clear">>
    \/ HasHist /\ U!ClearUndo /\ op' = <<"clearu">>
    \/ HasHist /\ U!ClearRedo /\ op' = <<"clearr">>

Flags ==
    \/ U!Saved /\ op' = <<"saved">>
    \/ \E o \in {0, 1} : \/ U!RegenDone(o) /\ op' = <<"regendone", o>>
                         \/ HasHist /\ U!MayEdit /\ U!MarkObj(o) /\ op' = <<"mark", o>>

Transact ==
    \/ U!Begin /\ op' = <<"begin">>
    \/ U!Commit /\ op' = <<"commit">>
    \/ U!Rollback /\ op' = <<"rollback">>
    \/ U!End /\ op' = <<"end">>
    \/ \E s \in {U!OK, U!NotChanged, U!Invalid} : HasHist /\ level > 0 /\ U!Report(s) /\ op' = <<"report", s>>

OnDoc ==
    \/ U!Pause /\ op' = <<"pause">>
    \/ U!Resume /\ op' = <<"resume">>
    \/ U!Drop /\ op' = <<"drop">>
    \/ U!Keep /\ op' = <<"keep">>
    \/ U!DocRegen(TRUE) /\ op' = <<"docregen">>
    \/ U!DocRegen(FALSE) /\ op' = <<"docdone">>
    \/ \E n \in 0..1 : U!DocFile(n) /\ op' = <<"docfile", n>>
    \/ U!SetChanged /\ UNCHANGED doc /\ op' = <<"touched">>
    \/ U!RegenAsk(0) /\ UNCHANGED doc /\ op' = <<"regen", 0>>

Next == \/ (Basic \/ (WithFlags /\ Flags) \/ (WithTx /\ Transact)) /\ UNCHANGED doc
        \/ WithDoc /\ OnDoc

Bound ==
    /\ Len(undoS) + Len(redoS) <= MaxUndo
    /\ Len(cur) <= MaxCur /\ Len(tx) <= MaxTx /\ level <= MaxLevel
    /\ \A i \in DOMAIN undoS : Len(undoS[i].c) <= MaxCur

EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)

StepsLinked == U!StepsLinked
ChangesSuffice == U!ChangesSuffice
TxShape == U!TxShape

\* ---- properties of every step
\* Undo then redo (and the reverse) is the identity on the document; a refused move changes nothing.
UndoInverse == [][op' = <<"undo">> =>
                    IF ret' = <<1>> THEN U!Last(redoS').after = val /\ U!Last(redoS').before = val'
                    ELSE val' = val]_<<vars, op>>
\* A rolled back transaction leaves no trace in the document or its history.
RollbackNoTrace == [][(level = 1 /\ level' = 0 /\ val' # val) =>
                        /\ val' = U!Committed
                        /\ undoS' = undoS /\ redoS' = redoS /\ cur' = cur]_<<vars, op>>
\* A committed transaction enters the history as a whole.
CommitWhole == [][(level = 1 /\ level' = 0 /\ cur' # cur) => (val' = val /\ cur' = cur \o tx)]_<<vars, op>>
\* Nothing is recorded without a history that is on; nothing but edits and moves changes the document.
Unrecorded == [][(doc.hist # "on" /\ val' # val /\ op'[1] \notin {"undo", "redo"}) => (cur' = cur /\ undoS' = undoS /\ redoS' = redoS /\ tx' = tx)]_<<vars, op>>
Kept == [][op'[1] \in {"pause", "resume", "drop", "keep", "docregen", "docdone", "docfile"} => val' = val]_<<vars, op>>
\* Failing reports can only end in a rollback when the transaction decides by itself.
FailedRollsBack == [][(op' = <<"end">> /\ level = 1 /\ txstat # U!OK) => (val' = U!Committed)]_<<vars, op>>
=============================================================================
