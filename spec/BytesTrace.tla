----------------------------- MODULE BytesTrace -----------------------------
EXTENDS TraceLib
VARIABLES by, nul, high, stk, ret, thrown, l
Vs == 1..3
M == INSTANCE Bytes WITH BVars <- Vs
Init == M!Init /\ l = 1
Step(e) ==
    LET a == e.a IN
    CASE e.op = "new"      -> /\ by' = [v \in Vs |-> <<>>] /\ nul' = [v \in Vs |-> TRUE] /\ high' = [v \in Vs |-> 0]
                              /\ stk' = <<>> /\ M!Quiet
      [] e.op \in {"make", "makes", "makel"} -> M!Make(a[1], a[2])
      [] e.op = "makez"    -> M!MakeZ(a[1], a[2])
      [] e.op = "makenull" -> M!MakeNull(a[1])
      [] e.op = "filled"   -> M!MakeFilled(a[1], a[2], a[3])
      [] e.op \in {"assign", "copy"} -> M!Copy(a[1], a[2])
      [] e.op \in {"set", "setidx", "setptr"} -> M!Set(a[1], a[2], a[3])
      [] e.op \in {"get", "getidx"} -> M!Get(a[1], a[2])
      [] e.op = "fill"     -> M!Fill(a[1], a[2])
      [] e.op = "swap"     -> M!Swap(a[1], a[2], a[3])
      [] e.op = "splice"   -> M!Splice(a[1], a[2], a[3], a[4], a[5])
      [] e.op = "resize"   -> M!Resize(a[1], a[2], LET s == e.o[1][a[1]] IN SubSeq(s, Len(by[a[1]]) + 1, Len(s)))
      [] e.op = "sort"     -> M!Sort(a[1])
      [] e.op = "equal"    -> M!Equal(a[1], a[2])
      [] e.op = "push"     -> M!Push(a[1])
      [] e.op = "pop"      -> M!Pop
      [] e.op = "top"      -> M!Top
      [] e.op = "settop"   -> M!SetTop(a[1])
      [] e.op = "nth"      -> M!Nth(a[1])
      [] e.op = "reverse"  -> M!Reverse
      [] e.op = "clearstack" -> M!ClearStack
Legal(e) ==
    LET a == e.a IN
    CASE e.op \in {"set", "setidx", "setptr", "get", "getidx"} -> M!Valid(a[1], a[2])
      [] e.op = "splice" -> a[2] \in 0..Len(by[a[1]]) /\ a[3] >= 0 /\ a[5] >= 0 /\ a[3] + a[5] <= Len(by[a[4]]) /\ (a[1] # a[4] \/ a[2] <= a[3])
      [] e.op \in {"pop", "top", "settop"} -> stk # <<>>
      [] OTHER -> TRUE
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
        /\ Step(e)
        /\ e.x = (IF thrown' THEN 1 ELSE 0) /\ e.r = ret'
        \* contents, no buffer, empty, terminated
        /\ e.o[1] = by'
        /\ e.o[2] = [v \in Vs |-> <<IF nul'[v] THEN 1 ELSE 0, IF by'[v] = <<>> THEN 1 ELSE 0, 1>>]
        /\ e.o[3] = <<Len(stk'), IF stk' = <<>> THEN 0 ELSE 1>>
    /\ l' = l + 1
Mem == Remember(<<by, nul, high, stk>>) /\ (l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l))
=============================================================================
