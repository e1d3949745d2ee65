------------------------------ MODULE DiffTrace -----------------------------
EXTENDS TraceLib
VARIABLES u, v, l
D == INSTANCE Diff
Init == u = <<>> /\ v = <<>> /\ l = 1
Step(e) ==
    LET a == e.a IN
    CASE e.op \in {"new", "clear"} -> u' = <<>> /\ v' = <<>>
      [] e.op = "u" -> u' = u \o <<<<a[1], a[2]>>>> /\ UNCHANGED v
      [] e.op = "v" -> v' = v \o <<<<a[1], a[2]>>>> /\ UNCHANGED u
      \* the distance, and the changes as they are printed
      [] e.op = "solve" -> /\ UNCHANGED <<u, v>>
                           /\ e.r[1] = D!Distance(u, v)
                           /\ Len(e.r[2]) = e.r[1]
                           /\ D!Explains(u, v, e.r[2])
Next == l <= Len(Trace) /\ Trace[l].x = 0 /\ Step(Trace[l]) /\ l' = l + 1
Mem == Remember(<<u, v>>)
=============================================================================
