------------------------------ MODULE UndoTrace ------------------------------
\* Accepts a recorded editing session iff every recorded call is a step of Undo with the recorded result
\* and the recorded observations.
EXTENDS TraceLib

CONSTANTS NF, NO, Watch

VARIABLES val, cur, undoS, redoS, tx, level, txstat, changed, regen, ret, doc
VARIABLE l

Own(f) == f % NO
U == INSTANCE Undo WITH Fields <- 0..(NF - 1), Objects <- 0..(NO - 1), Owner <- Own
uvars == <<val, cur, undoS, redoS, tx, level, txstat, changed, regen, ret, doc>>

B(b) == IF b THEN 1 ELSE 0
Seen(o) ==
    /\ "values" \in Watch =>
         /\ \A f \in 0..(NF - 1) : o.v[f + 1] = val'[f]
    /\ "stacks" \in Watch => (o.u = Len(undoS') /\ o.r = Len(redoS'))
    /\ "open" \in Watch => (o.s = B(cur' # <<>>) /\ o.t = B(level' > 0))
    /\ "txstat" \in Watch => (level' > 0 => o.ts = txstat')
    /\ "doc" \in Watch => (o.h = doc'.hist /\ o.d = <<B(doc'.regen), doc'.file>>)
    /\ "changed" \in Watch => o.c = B(changed')
    /\ "regen" \in Watch => \A i \in 0..(NO - 1) : o.g[i + 1] = B(regen'[i])

Init == U!InitWith(0) /\ l = 1

New ==
    /\ val' = [f \in 0..(NF - 1) |-> 0]
    /\ cur' = <<>> /\ undoS' = <<>> /\ redoS' = <<>>
    /\ tx' = <<>> /\ level' = 0 /\ txstat' = U!OK
    /\ changed' = FALSE
    /\ regen' = [o \in 0..(NO - 1) |-> TRUE]
    /\ ret' = <<>> /\ doc' = U!NewDoc

Other(e) ==
    CASE e.op = "pause"     -> U!Pause
      [] e.op = "resume"    -> U!Resume
      [] e.op = "drop"      -> U!Drop
      [] e.op = "keep"      -> U!Keep
      [] e.op = "docregen"  -> U!DocRegen(TRUE)
      [] e.op = "docdone"   -> U!DocRegen(FALSE)
      [] e.op = "docfile"   -> U!DocFile(e.a[1])
Others == {"pause", "resume", "drop", "keep", "docregen", "docdone", "docfile"}

Step(e) ==
    CASE e.op = "new"       -> New
      [] e.op = "edit"      -> U!Edit(e.a[1], e.a[2])
      [] e.op = "member"    -> U!Member(e.a[1], e.a[2])
      [] e.op = "ranged"    -> U!Ranged(e.a[1], e.a[2], e.a[3], e.a[4])
      [] e.op = "nan"       -> U!Refuse
      [] e.op = "mark"      -> U!MarkObj(e.a[1])
      [] e.op = "close"     -> U!Close
      [] e.op = "undo"      -> U!Undo
      [] e.op = "redo"      -> U!Redo
      [] e.op = "clear"     -> U!Clear
      [] e.op = "clearu"    -> U!ClearUndo
      [] e.op = "clearr"    -> U!ClearRedo
      [] e.op = "begin"     -> U!Begin
      [] e.op = "commit"    -> U!Commit
      [] e.op = "rollback"  -> U!Rollback
      [] e.op = "end"       -> U!End
      [] e.op = "report"    -> U!Report(e.a[1])
      [] e.op = "saved"     -> U!Saved
      [] e.op = "touched"   -> U!SetChanged
      [] e.op = "regen"     -> U!RegenAsk(e.a[1])
      [] e.op = "regendone" -> U!RegenDone(e.a[1])

Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
        /\ e.x = 0
        /\ IF e.op \in Others THEN Other(e) ELSE Step(e) /\ (e.op = "new" \/ UNCHANGED doc)
        /\ e.r = ret'
        /\ Seen(e.o)
    /\ l' = l + 1

Legal(e) == /\ e.op \in {"commit", "rollback"} => level > 0
            /\ e.op = "end" => level > 0 \/ doc.hist = "none"
            /\ e.op \in {"pause", "resume"} => level = 0 /\ doc.hist # "none"
            /\ e.op = "drop" => level = 0
            /\ e.op \in {"edit", "member", "ranged", "mark"} => U!MayEdit
            /\ e.op \in {"edit", "mark", "undo", "redo", "clear", "clearu", "clearr", "commit", "rollback", "report"} => doc.hist # "none"
Mem == /\ l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)
       /\ Remember([val |-> val, cur |-> cur, undo |-> undoS, redo |-> redoS, tx |-> tx, level |-> level,
                 txstat |-> txstat, changed |-> changed, regen |-> regen, doc |-> doc])
=============================================================================
