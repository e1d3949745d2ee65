-------------------------------- MODULE Undo --------------------------------
\* Editing history of one document: tracked members of editable objects, the step being recorded, the undo
\* and redo stacks, nested transactions, and the flags an application reads off them.
EXTENDS Integers, Sequences

CONSTANTS
    Fields,         \* the tracked members
    Objects,        \* the editable objects that own them
    Owner(_)        \* Fields -> Objects

\* Status codes as the drivers report them.
OK == 1
NotChanged == 2
Invalid == 3

VARIABLES
    val,            \* [Fields -> value] what the members hold
    cur,            \* changes recorded since the last step was closed, oldest first
    undoS, redoS,   \* closed steps, next one to take last
    tx,             \* changes of the open transaction, oldest first
    level,          \* nesting of transactions
    txstat,         \* worst status reported inside the transaction
    changed,        \* document modified since it was saved
    regen,          \* objects whose presentation must be renewed
    ret,            \* what the last call returned
    doc             \* the document itself: its history, whether it is to be presented anew, where it is stored

vars == <<val, cur, undoS, redoS, tx, level, txstat, changed, regen, ret, doc>>

\* A change is what has to be put back: member, the value before, the object to be renewed.
\* kind "mark" only asks for renewal.
Change(f, old) == [k |-> "val", f |-> f, old |-> old, o |-> Owner(f)]
Mark(o) == [k |-> "mark", f |-> 0, old |-> 0, o |-> o]

\* A step keeps the document as it was before and after: taking it back or repeating it must lead exactly
\* there. How an implementation stores it (swapped values, copies) is not prescribed.
Step(chgs, b, a) == [c |-> chgs, before |-> b, after |-> a]

\* Values after taking back a sequence of changes, newest first.
RECURSIVE TakeBack(_, _)
TakeBack(v, chgs) ==
    IF chgs = <<>> THEN v
    ELSE LET c == chgs[Len(chgs)]
             rest == SubSeq(chgs, 1, Len(chgs) - 1)
         IN TakeBack(IF c.k = "val" THEN [v EXCEPT ![c.f] = c.old] ELSE v, rest)

Touched(chgs) == {chgs[i].o : i \in DOMAIN chgs}
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]

\* The history of a document is "on", "paused" (it keeps what it has and records nothing), or there is "none".
NewDoc == [hist |-> "on", regen |-> FALSE, file |-> 0]
InitWith(v0) ==
    /\ val = [f \in Fields |-> v0]
    /\ cur = <<>> /\ undoS = <<>> /\ redoS = <<>>
    /\ tx = <<>> /\ level = 0 /\ txstat = OK
    /\ changed = FALSE
    /\ regen = [o \in Objects |-> TRUE]
    /\ ret = <<>>
    /\ doc = NewDoc

\* ---- recording
Record(chgs) ==
    IF doc.hist # "on" THEN UNCHANGED <<tx, cur, redoS>>
    ELSE IF level > 0
    THEN /\ tx' = tx \o chgs
         /\ UNCHANGED <<cur, redoS>>
    ELSE /\ cur' = cur \o chgs
         /\ redoS' = <<>>
         /\ UNCHANGED tx

\* An edit that is announced and then made, whether or not the value differs.
Edit(f, v) ==
    /\ Record(<<Change(f, val[f])>>)
    /\ val' = [val EXCEPT ![f] = v]
    /\ ret' = <<>>
    /\ UNCHANGED <<undoS, level, txstat, changed, regen>>

\* The member setters: nothing happens when the value is the one already there.
Member(f, v) ==
    IF v = val[f]
    THEN /\ ret' = <<NotChanged>>
         /\ UNCHANGED <<val, cur, undoS, redoS, tx, level, txstat, changed, regen>>
    ELSE /\ Record(<<Change(f, val[f])>>)
         /\ val' = [val EXCEPT ![f] = v]
         /\ ret' = <<OK>>
         /\ UNCHANGED <<undoS, level, txstat, changed, regen>>

\* ... and an unacceptable value is refused, changes nothing and fails the transaction it happens in.
Refuse ==
    /\ ret' = <<Invalid>>
    /\ txstat' = IF doc.hist = "none" THEN txstat ELSE Invalid
    /\ UNCHANGED <<val, cur, undoS, redoS, tx, level, changed, regen>>

Ranged(f, v, lo, hi) ==
    IF v # val[f] /\ ~(lo <= v /\ v <= hi) THEN Refuse ELSE Member(f, v)

MarkObj(o) ==
    /\ Record(<<Mark(o)>>)
    /\ ret' = <<>>
    /\ UNCHANGED <<val, undoS, level, txstat, changed, regen>>

\* ---- steps
Close ==
    /\ ret' = <<>>
    /\ IF cur = <<>>
       THEN UNCHANGED <<cur, undoS, changed>>
       ELSE /\ undoS' = Append(undoS, Step(cur, TakeBack(TakeBack(val, tx), cur), TakeBack(val, tx)))
            /\ cur' = <<>>
            /\ changed' = TRUE
    /\ UNCHANGED <<val, redoS, tx, level, txstat, regen>>

CanMove == cur = <<>> /\ level = 0

Undo ==
    IF CanMove /\ undoS # <<>>
    THEN LET s == Last(undoS) IN
         /\ val' = s.before
         /\ undoS' = Front(undoS)
         /\ redoS' = Append(redoS, s)
         /\ changed' = TRUE
         /\ regen' = [o \in Objects |-> regen[o] \/ o \in Touched(s.c)]
         /\ ret' = <<1>>
         /\ UNCHANGED <<cur, tx, level, txstat>>
    ELSE ret' = <<0>> /\ UNCHANGED <<val, cur, undoS, redoS, tx, level, txstat, changed, regen>>

Redo ==
    IF CanMove /\ redoS # <<>>
    THEN LET s == Last(redoS) IN
         /\ val' = s.after
         /\ redoS' = Front(redoS)
         /\ undoS' = Append(undoS, s)
         /\ changed' = TRUE
         /\ regen' = [o \in Objects |-> regen[o] \/ o \in Touched(s.c)]
         /\ ret' = <<1>>
         /\ UNCHANGED <<cur, tx, level, txstat>>
    ELSE ret' = <<0>> /\ UNCHANGED <<val, cur, undoS, redoS, tx, level, txstat, changed, regen>>

Clear ==
    /\ changed' = (changed \/ cur # <<>>)
    /\ cur' = <<>> /\ undoS' = <<>> /\ redoS' = <<>>
    /\ ret' = <<>>
    /\ UNCHANGED <<val, tx, level, txstat, regen>>

ClearUndo == undoS' = <<>> /\ ret' = <<>> /\ UNCHANGED <<val, cur, redoS, tx, level, txstat, changed, regen>>
ClearRedo == redoS' = <<>> /\ ret' = <<>> /\ UNCHANGED <<val, cur, undoS, tx, level, txstat, changed, regen>>

\* ---- transactions
Begin ==
    /\ IF doc.hist = "none" THEN UNCHANGED <<level, txstat>>
       ELSE /\ level' = level + 1
            /\ txstat' = IF level = 0 THEN OK ELSE txstat
    /\ ret' = <<>>
    /\ UNCHANGED <<val, cur, undoS, redoS, tx, changed, regen>>

DoCommit ==
    /\ level > 0
    /\ level' = level - 1
    /\ IF level = 1
       THEN /\ cur' = cur \o tx
            /\ redoS' = IF tx = <<>> THEN redoS ELSE <<>>
            /\ tx' = <<>>
            /\ txstat' = OK
       ELSE UNCHANGED <<cur, redoS, tx, txstat>>
    /\ UNCHANGED <<val, undoS, changed, regen>>

DoRollback ==
    /\ level > 0
    /\ level' = level - 1
    /\ IF level = 1
       THEN /\ val' = TakeBack(val, tx)
            /\ regen' = [o \in Objects |-> regen[o] \/ o \in Touched(tx)]
            /\ tx' = <<>>
            /\ txstat' = OK
       ELSE UNCHANGED <<val, regen, tx, txstat>>
    /\ UNCHANGED <<cur, undoS, redoS, changed>>

Commit == DoCommit /\ ret' = <<>>
Rollback == DoRollback /\ ret' = <<>>
End ==
    IF doc.hist = "none" THEN ret' = <<NotChanged>> /\ UNCHANGED <<val, cur, undoS, redoS, tx, level, txstat, changed, regen>>
    ELSE /\ level > 0
         /\ ret' = <<txstat>>
         /\ IF txstat = OK THEN DoCommit ELSE DoRollback

\* An operation reports its status; success and "not changed" do not fail a transaction.
Report(s) ==
    /\ txstat' = IF s \in {OK, NotChanged} THEN txstat ELSE s
    /\ ret' = <<>>
    /\ UNCHANGED <<val, cur, undoS, redoS, tx, level, changed, regen>>

\* ---- flags
Saved == changed' = FALSE /\ ret' = <<>> /\ UNCHANGED <<val, cur, undoS, redoS, tx, level, txstat, regen>>
RegenDone(o) ==
    /\ regen' = [regen EXCEPT ![o] = FALSE]
    /\ ret' = <<>>
    /\ UNCHANGED <<val, cur, undoS, redoS, tx, level, txstat, changed>>

\* ---- the document itself; all other actions leave it as it is
ModeChange(h) == /\ doc' = [doc EXCEPT !.hist = h]
                 /\ ret' = <<>>
Pause == doc.hist # "none" /\ level = 0 /\ ModeChange("paused") /\ UNCHANGED <<val, cur, undoS, redoS, tx, level, txstat, changed, regen>>
Resume == doc.hist # "none" /\ level = 0 /\ ModeChange("on") /\ UNCHANGED <<val, cur, undoS, redoS, tx, level, txstat, changed, regen>>
\* Without a history the steps are gone, the document stays.
Drop == /\ level = 0
        /\ ModeChange("none")
        /\ cur' = <<>> /\ undoS' = <<>> /\ redoS' = <<>> /\ txstat' = OK
        /\ changed' \in IF cur = <<>> THEN {changed} ELSE {changed, TRUE}
        /\ UNCHANGED <<val, tx, level, regen>>
\* A document that has a history keeps it.
Keep == /\ ModeChange(IF doc.hist = "none" THEN "on" ELSE doc.hist)
        /\ UNCHANGED <<val, cur, undoS, redoS, tx, level, txstat, changed, regen>>
\* Members may be edited while nothing is recorded only if there is nothing to take back.
MayEdit == doc.hist = "paused" => cur = <<>> /\ undoS = <<>> /\ redoS = <<>> /\ tx = <<>>
DocOnly(d) == doc' = d /\ ret' = <<>> /\ UNCHANGED <<val, cur, undoS, redoS, tx, level, txstat, changed, regen>>
DocRegen(b) == DocOnly([doc EXCEPT !.regen = b])
DocFile(n) == DocOnly([doc EXCEPT !.file = n])
SetChanged == changed' = TRUE /\ ret' = <<>> /\ UNCHANGED <<val, cur, undoS, redoS, tx, level, txstat, regen>>
\* an object asks to be presented anew
RegenAsk(o) ==
    /\ regen' = [regen EXCEPT ![o] = TRUE]
    /\ ret' = <<>>
    /\ UNCHANGED <<val, cur, undoS, redoS, tx, level, txstat, changed>>

\* ---- what must hold
\* The document without the uncommitted part, and without the step being recorded.
Committed == TakeBack(val, tx)
Base == TakeBack(Committed, cur)

\* Consecutive steps fit together, so any number of undos (redos) walks back (forward) through exactly the
\* states the document had when the steps were closed.
StepsLinked ==
    /\ \A i \in 1..Len(undoS) - 1 : undoS[i].after = undoS[i + 1].before
    /\ undoS # <<>> => Last(undoS).after = Base
    /\ \A i \in 1..Len(redoS) - 1 : redoS[i + 1].after = redoS[i].before
    /\ redoS # <<>> => Last(redoS).before = Base
    /\ cur # <<>> => redoS = <<>>

\* The recorded changes are sufficient to go back: replaying them backwards gives the remembered document.
ChangesSuffice ==
    /\ \A i \in DOMAIN undoS : TakeBack(undoS[i].after, undoS[i].c) = undoS[i].before
    /\ \A i \in DOMAIN redoS : TakeBack(redoS[i].after, redoS[i].c) = redoS[i].before

TxShape == (level = 0) => (tx = <<>>)
=============================================================================
