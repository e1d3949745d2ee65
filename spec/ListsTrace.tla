----------------------------- MODULE ListsTrace -----------------------------
EXTENDS TraceLib
VARIABLES lst, tok, ret, thrown, l
Vs == 1..5   \* 3, 4: arrays of texts and of pointers to texts; 5: an array of numbers
L == INSTANCE Lists WITH LVars <- Vs
Init == L!Init /\ l = 1
Step(e) ==
    LET a == e.a IN
    CASE e.op = "new"    -> lst' = [v \in Vs |-> <<>>] /\ tok' = <<>> /\ L!Quiet
      [] e.op = "make"   -> L!Make(a[1], a[2])
      [] e.op = "floats" -> L!Set(5, [k \in DOMAIN a[1] |-> <<a[1][k]>>])
      [] e.op \in {"fset", "fsetidx"} -> L!Valid(5, a[1]) /\ L!PutAt(5, a[1], <<a[2]>>)
      [] e.op = "fsort"  -> L!Sort(5)
      [] e.op \in {"fassign", "fcopy"} -> L!Assign(5, 5)
      [] e.op = "makeone" -> L!MakeOne(a[1], a[2])
      [] e.op \in {"append", "shl"} -> L!Append_(a[1], a[2])
      [] e.op = "appendown" -> L!AppendOwn(a[1], a[2])
      [] e.op = "remove" -> L!Remove(a[1], a[2])
      [] e.op = "removeown" -> L!RemoveOwn(a[1], a[2])
      [] e.op \in {"set", "setidx"} -> L!PutAt(a[1], a[2], a[3])
      [] e.op \in {"get", "getidx"} -> L!Get(a[1], a[2])
      [] e.op = "sort"   -> L!Sort(a[1])
      [] e.op = "clear"  -> L!Clear(a[1])
      [] e.op \in {"assign", "copy"} -> L!Assign(a[1], a[2])
      [] e.op = "reserve" -> L!Reserve(a[1])
      [] e.op = "contains" -> L!Contains(a[1], a[2])
      [] e.op = "join"   -> L!JoinAll(a[1], a[2])
      [] e.op = "split"  -> L!Split(a[1], a[2], a[3])
      [] e.op = "tok"    -> L!Start(a[1], a[2], a[3] = 1)
      [] e.op = "more"   -> L!More
      [] e.op = "take"   -> L!Take
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
        /\ Step(e)
        /\ e.x = (IF thrown' THEN 1 ELSE 0) /\ e.r = ret'
        /\ e.o = lst'
    /\ l' = l + 1
Mem == Remember(<<lst, tok>>)
=============================================================================
