------------------------------ MODULE ParTrace ------------------------------
\* An event is a program with all the histories its schedules had.
EXTENDS TraceLib
VARIABLES n, l
T == INSTANCE Par
H == INSTANCE Histories WITH Tau <- T!Tau, Vis <- T!Vis
Init == n = 0 /\ l = 1
Whole(h) == h # <<>> /\ h[Len(h)][1] = "end"
Step(e) ==
    CASE e.op = "new" -> n' = 0
      [] e.op = "par" ->
            /\ n' = Len(e.r) /\ n' > 0
            /\ \A k \in 1..Len(e.r) : Whole(e.r[k]) /\ H!Accepts({T!Start(e.a[1], e.a[2], Len(e.a[3]))}, e.r[k])
Next == l <= Len(Trace) /\ Trace[l].x = 0 /\ Step(Trace[l]) /\ l' = l + 1
Mem == Remember(n)
=============================================================================
