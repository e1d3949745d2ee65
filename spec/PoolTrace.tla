----------------------------- MODULE PoolTrace ------------------------------
\* An event is a program with all the histories its schedules had.
EXTENDS TraceLib
VARIABLES n, l
P == INSTANCE Pool
H == INSTANCE Histories WITH Tau <- P!Tau, Vis <- P!Vis
Init == n = 0 /\ l = 1
Step(e) ==
    CASE e.op = "new" -> n' = 0
      [] e.op = "pool" -> n' = Len(e.r) /\ n' > 0 /\ \A k \in 1..Len(e.r) : H!Accepts({P!Start(e.a[1], Len(e.a[2]))}, e.r[k])
Next == l <= Len(Trace) /\ Trace[l].x = 0 /\ Step(Trace[l]) /\ l' = l + 1
\* a thread only gives up what it holds
RECURSIVE Fair(_, _, _)
Fair(held, ops, o) ==
    IF ops = <<>> THEN TRUE
    ELSE LET c == Head(ops) IN
         IF Len(c) < 2 \/ c[2] # o THEN Fair(held, Tail(ops), o)
         ELSE held > 0 /\ Fair(held + (CASE c[1] = "retain" -> 1 [] c[1] = "flag" -> 0 [] OTHER -> -1), Tail(ops), o)
Legal(e) == e.op = "pool" => \A o \in 1..Len(e.a[1]), t \in 1..Len(e.a[2]) : Fair(e.a[1][o][t], e.a[2][t], o)
Mem == (l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)) /\ Remember(n)
=============================================================================
