------------------------------- MODULE MCPool -------------------------------
\* Kind = "run": threads that call whatever they may, in every order. Kind = "prog": all small programs, to be run under every
\* schedule by the code.
EXTENDS Integers, Sequences, FiniteSets, TLC, Walk
CONSTANTS Emit, Kind, NO, NT, MaxOps, MaxLen, Preempt, Runs
VARIABLES s, hold, n, op
P == INSTANCE Pool
View == <<s, hold, n>>
\* every thread but the first holds one reference of every object; the first holds one of the first object
Refs == [o \in 1..NO |-> [t \in 1..NT |-> IF t > 1 \/ o = 1 THEN 1 ELSE 0]]
Init == s = P!Start(Refs, NT) /\ hold = [t \in 0..(NT - 1) |-> [o \in 1..NO |-> Refs[o][t + 1]]] /\ n = 0 /\ op = <<"new">>
Threads == 0..(NT - 1)
Delta(c) == CASE c = "retain" -> 1 [] c \in {"release", "auto"} -> -1 [] OTHER -> 0
CallO(t, c, o) == /\ n < MaxOps /\ n' = n + 1 /\ hold[t][o] > 0 /\ hold' = [hold EXCEPT ![t][o] = @ + Delta(c)] /\ s' \in P!Call(s, t, c, o)
\* programs
Alphabet == {<<"drain">>} \cup {<<c, o>> : c \in {"retain", "release", "auto", "flag"}, o \in 1..NO}
RECURSIVE Fair(_, _, _)
Fair(held, ops, o) == IF ops = <<>> THEN TRUE
    ELSE IF Len(Head(ops)) < 2 \/ Head(ops)[2] # o THEN Fair(held, Tail(ops), o)
    ELSE held > 0 /\ Fair(held + Delta(Head(ops)[1]), Tail(ops), o)
Progs(t) == {p \in UNION {[1..k -> Alphabet] : k \in 0..MaxLen} : \A o \in 1..NO : Fair(Refs[o][t + 1], p, o)}
Next ==
    \/ Kind = "run" /\ \E t \in Threads, c \in {"retain", "release", "auto", "flag"}, o \in 1..NO : CallO(t, c, o) /\ op' = <<"call">>
    \/ Kind = "run" /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED hold /\ \E t \in Threads : s' \in P!Call(s, t, "drain", 0) /\ op' = <<"call">>
    \/ Kind = "run" /\ UNCHANGED <<hold, n>> /\ s' \in P!Tau(s) /\ op' = <<"tau">>
    \/ Kind = "run" /\ UNCHANGED <<hold, n>> /\ \E t \in Threads : s' \in P!Ret(s, t) /\ op' = <<"ret">>
    \/ Kind = "run" /\ UNCHANGED <<hold, n>> /\ \E t \in Threads, o \in 1..NO : s' \in P!Dtor(s, t, o) /\ op' = <<"dtor", o>>
    \/ Kind = "prog" /\ n = 0 /\ n' = 1 /\ UNCHANGED <<s, hold>> /\ \E a \in {<<>>, <<<<"release", 1>>>>, <<<<"drain">>>>} : \E b, c \in Progs(1) : Len(b) <= Len(c) /\ op' = <<"pool", Refs, <<a, b, c>>, Preempt, Runs>>
Bound == TRUE
EmitT == (Emit /\ Kind = "prog") => PrintStep(<<1>>, op', <<1>>)
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(<<1>>)
RECURSIVE SumT(_, _)
SumT(f, t) == IF t < 0 THEN 0 ELSE f[t] + SumT(f, t - 1)
\* references are held by threads, wait in the pool, or are just being taken or given up
Pending(t, o) == LET x == s.th[t] IN
    (IF x.ph = "go" /\ x.o = o THEN (CASE x.op \in {"release", "auto"} -> 1 [] x.op = "retain" -> -1 [] OTHER -> 0) ELSE 0) + x.mine[o]
Counted == \A o \in 1..NO : s.cnt[o] = SumT([t \in Threads |-> hold[t][o] + Pending(t, o)], NT - 1) + s.pool[o]
Alive == \A o \in 1..NO : s.gone[o] => (s.cnt[o] = 0 /\ \A t \in Threads : hold[t][o] = 0)
NotLost == \A o \in 1..NO : (s.cnt[o] = 0 /\ ~s.gone[o]) => \E t \in Threads : s.th[t].ph = "dtor" /\ s.th[t].o = o
=============================================================================
