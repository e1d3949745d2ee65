------------------------------ MODULE MapTrace ------------------------------
EXTENDS TraceLib, FiniteSets
VARIABLES map, mass, ret, l
M == INSTANCE Map
Init == M!Init /\ l = 1
Step(e) ==
    CASE e.op = "new"      -> M!Clear /\ e.r = ret'
      [] e.op = "put"      -> M!Put(e.a[1], e.a[2]) /\ e.r = ret'
      [] e.op = "putmany" -> M!PutMany(e.a[1], e.a[2], e.a[3]) /\ e.r = ret'
      [] e.op = "removemany" -> M!RemoveMany(e.a[1], e.a[2]) /\ e.r = ret'
      [] e.op = "remove"   -> M!Remove(e.a[1]) /\ e.r = ret'
      [] e.op = "get"      -> M!Get(e.a[1]) /\ e.r = ret'
      [] e.op = "has"      -> M!Contains(e.a[1]) /\ e.r = ret'
      [] e.op = "keys"     -> M!ListsKeys(e.r) /\ UNCHANGED <<map, mass, ret>>
      [] e.op = "values"   -> M!ListsValues(e.r) /\ UNCHANGED <<map, mass, ret>>
      [] e.op = "keysNow"  -> M!ListsKeys(e.r) /\ UNCHANGED <<map, mass, ret>>
      [] e.op = "valuesNow" -> M!ListsValues(e.r) /\ UNCHANGED <<map, mass, ret>>
      [] e.op = "clear"    -> M!Clear /\ e.r = ret'
Legal(e) ==
    CASE e.op = "putmany" -> DOMAIN map = {} \/ e.a[2] < Len(mass)
      [] e.op = "removemany" -> e.a[2] < Len(mass)
      [] OTHER -> TRUE
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
        /\ e.x = 0 /\ Step(e)
        /\ e.o[1] = M!Size'
    /\ l' = l + 1
Mem == (l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)) /\ Remember(<<map, mass>>)
=============================================================================
