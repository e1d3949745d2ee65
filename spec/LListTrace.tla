----------------------------- MODULE LListTrace -----------------------------
EXTENDS TraceLib, FiniteSets
VARIABLES lst, base, open, und, red, tracked, ret, l
Data == 1..9
L == INSTANCE LList
Init == L!Init /\ l = 1
New == /\ lst' = <<>> /\ base' = <<>> /\ open' = FALSE /\ und' = <<>> /\ red' = <<>> /\ tracked' = TRUE /\ ret' = <<>>
Step(e) ==
    CASE e.op = "new"    -> New
      [] e.op = "add"    -> L!Add(e.a[1])
      [] e.op = "before" -> L!AddBefore(e.a[1], e.a[2])
      [] e.op = "remove" -> L!Remove(e.a[1])
      [] e.op = "swap"   -> L!Swap(e.a[1], e.a[2])
      [] e.op = "clear"  -> L!Clear
      [] e.op = "close"  -> L!Close
      [] e.op = "undo"   -> L!Undo
      [] e.op = "redo"   -> L!Redo
      [] e.op = "forget" -> L!Forget(e.a[1] = 1)
      \* iterating reads only
      [] e.op = "scan"   -> L!Nothing /\ ret' = lst
      [] e.op = "copies" -> L!Nothing /\ ret' = <<SubSeq(lst, e.a[1] + 1, Len(lst)), lst>>
Seen(o) ==
    /\ o.i = lst'
    /\ o.n = Len(lst')
    /\ o.f = (IF lst' = <<>> THEN <<>> ELSE <<lst'[1]>>)
    /\ o.l = (IF lst' = <<>> THEN <<>> ELSE <<lst'[Len(lst')]>>)
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN e.x = 0 /\ Step(e) /\ e.r = ret' /\ Seen(e.o)
    /\ l' = l + 1
Legal(e) == e.op = "swap" => L!CanSwap(e.a[1], e.a[2])
Mem == /\ l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)
       /\ Remember([lst |-> lst, base |-> base, open |-> open, und |-> und, red |-> red, tracked |-> tracked])
=============================================================================
