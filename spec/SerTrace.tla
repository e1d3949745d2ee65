------------------------------ MODULE SerTrace ------------------------------
EXTENDS TraceLib
VARIABLES b, l
S == INSTANCE Ser
Init == b = <<>> /\ l = 1
Step(e) ==
    LET a == e.a IN
    CASE e.op = "new" -> b' = a[1]
      [] e.op = "put" -> b' = S!Store(b, a[1], a[2], a[3]) /\ e.r = <<S!Size(a[1])>>
      \* every way to read it
      [] e.op = "get" -> UNCHANGED b /\ Len(e.r) > 0 /\ \A k \in 1..Len(e.r) : e.r[k] = S!Wide(a[1], S!Fetch(b, a[1], a[2]))
Next == l <= Len(Trace) /\ Trace[l].x = 0 /\ Step(Trace[l]) /\ Trace[l].o = b' /\ l' = l + 1
Legal(e) == CASE e.op \in {"put", "get"} -> S!Inside(b, e.a[1], e.a[2])
              [] OTHER -> TRUE
Mem == (l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)) /\ Remember(b)
=============================================================================
