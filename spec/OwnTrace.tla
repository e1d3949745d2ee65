------------------------------ MODULE OwnTrace ------------------------------
EXTENDS TraceLib, FiniteSets
CONSTANT N
VARIABLES st, mode, held, pool, ref, cur, und, red, tx, level, hi, l
Objs == 1..N
O == INSTANCE Own
Init == O!Init /\ l = 1
New ==
    /\ st' = [o \in Objs |-> 0] /\ mode' = [o \in Objs |-> 0] /\ held' = [o \in Objs |-> 0]
    /\ pool' = [o \in Objs |-> 0] /\ ref' = [o \in Objs |-> 0] /\ hi' = [o \in Objs |-> FALSE]
    /\ cur' = <<>> /\ und' = <<>> /\ red' = <<>> /\ tx' = <<>> /\ level' = 0
Step(e) ==
    CASE e.op = "new"         -> New
      [] e.op = "make"        -> O!New(e.a[1], e.a[2])
      [] e.op = "retain"      -> O!Retain(e.a[1])
      [] e.op = "release"     -> O!Release(e.a[1])
      [] e.op = "autorelease" -> O!Autorelease(e.a[1])
      [] e.op = "drain"       -> O!Drain
      [] e.op = "high"        -> O!Flag(e.a[1], e.a[2] = 1)
      [] e.op = "set"         -> O!Set(e.a[1], e.a[2])
      [] e.op = "edit"        -> O!Edit(e.a[1], e.a[2])
      [] e.op = "close"       -> O!Close
      [] e.op = "undo"        -> O!Undo
      [] e.op = "redo"        -> O!Redo
      [] e.op = "clear"       -> O!Clear
      [] e.op = "drop"        -> O!Clear
      [] e.op = "clearu"      -> O!ClearUndo
      [] e.op = "clearr"      -> O!ClearRedo
      [] e.op = "begin"       -> O!Begin
      [] e.op = "commit"      -> O!Commit
      [] e.op = "rollback"    -> O!Rollback
\* o.s: life of every object, o.d: how often its destructor ran, o.c: its count, o.r: its reference, o.h: flag
Seen(e) ==
    \A i \in Objs :
        /\ e.s[i] = st'[i]
        /\ e.d[i] = (IF st'[i] = 2 THEN 1 ELSE 0)
        /\ st'[i] = 1 =>
            /\ e.r[i] = ref'[i]
            /\ e.h[i] = (IF hi'[i] THEN 1 ELSE 0)
            /\ O!Mentioned(cur', und', red', tx', i) \/ e.c[i] = O!Count(st', held', pool', ref', i)
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN e.x = 0 /\ Step(e) /\ Seen(e.o)
    /\ l' = l + 1
Legal(e) ==
    CASE e.op \in {"commit", "rollback"} -> level > 0
      [] e.op = "make" -> st[e.a[1]] = 0
      [] e.op \in {"retain", "release", "autorelease", "high"} -> held[e.a[1]] > 0
      [] e.op = "set" -> ENABLED O!Set(e.a[1], e.a[2])
      [] e.op = "edit" -> ENABLED O!Edit(e.a[1], e.a[2])
      [] OTHER -> TRUE
Mem == /\ l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)
       /\ Remember([st |-> st, held |-> held, pool |-> pool, ref |-> ref, cur |-> cur, und |-> und, red |-> red, tx |-> tx])
=============================================================================
