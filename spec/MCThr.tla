------------------------------- MODULE MCThr --------------------------------
\* Kind = "run": threads that call whatever they may, in every order. "life", "mutex": all small programs around one thread object or
\* around mutexes, to be run under every schedule by the code.
EXTENDS Integers, Sequences, FiniteSets, TLC, Walk
CONSTANTS Emit, Kind, NW, NP, MaxOps, MaxLen, Preempt, Runs
VARIABLES s, n, next, op
T == INSTANCE Thr
View == <<s, n, next>>
NT == 1 + 2 * NW + NP
Init == s = T!Start(NW, NT) /\ n = 0 /\ next = NP + 1 /\ op = <<"new">>
Works(t) == t <= NP \/ T!Obj(s, t) # 0
Holds(t) == \E m \in DOMAIN s.own : s.own[m] = t
\* what thread t may call
May(t, c, i) ==
    CASE c = "start" -> t = 0 /\ i <= NW /\ s.st[i] \in {"new", "end"} /\ ~s.alive[i]
      [] c = "int" -> t = 0 /\ i <= NW
      \* by the thread itself, or by the one that starts and interrupts it
      [] c = "name" -> i <= NW /\ (t = 0 \/ T!Obj(s, t) = i)
      [] c \in {"wake", "alive"} -> i <= NW
      [] c \in {"sleep", "nap"} -> T!Obj(s, t) # 0 /\ i = 1 /\ ~Holds(t)
      [] c = "tlock" -> T!Obj(s, t) # 0 /\ i = 1 /\ ~Holds(t)
      [] c = "tunlock" -> T!Obj(s, t) # 0 /\ i = 1 /\ s.own[T!NM + T!Obj(s, t)] = t
      [] c = "lock" -> t # 0 /\ s.own[i] # t /\ \A m \in i..T!NM : s.own[m] # t
      [] c = "unlock" -> s.own[i] = t
      [] c = "msleep" -> T!Obj(s, t) = 0 /\ ~Holds(t)
      [] c = "mwake" -> TRUE
Names == {"start", "int", "name", "wake", "alive", "sleep", "nap", "tlock", "tunlock"}
MNames == {"lock", "unlock", "msleep", "mwake"}
\* ---- programs
\* the calls of the main thread: started only when not running
RECURSIVE FairMain(_, _)
FairMain(run, p) == IF p = <<>> THEN TRUE
    ELSE CASE Head(p)[1] = "start" -> ~run /\ FairMain(TRUE, Tail(p))
           [] Head(p)[1] = "int" -> FairMain(FALSE, Tail(p))
           [] OTHER -> FairMain(run, Tail(p))
RECURSIVE Running(_, _)
Running(run, p) == IF p = <<>> THEN run ELSE Running(CASE Head(p)[1] = "start" -> TRUE [] Head(p)[1] = "int" -> FALSE [] OTHER -> run, Tail(p))
Seqs(A, k) == UNION {[1..j -> A] : j \in 0..k}
Mains == {p \in Seqs({<<"start", 1>>, <<"int", 1>>, <<"wake", 1>>, <<"alive", 1>>, <<"name", 1>>}, MaxLen) : FairMain(FALSE, p)}
Bodies == {<<>>, <<<<"sleep">>>>, <<<<"nap", 10>>>>, <<<<"sleep">>, <<"nap", 2600>>>>, <<<<"alive", 1>>>>, <<<<"name", 1>>, <<"sleep">>>>, <<<<"tlock">>, <<"tunlock">>, <<"sleep">>>>,
           <<<<"loop", <<<<"sleep">>>>>>>>, <<<<"loop", <<<<"nap", 10>>>>>>>>}
Forever == {<<<<"loop", <<<<"nap", 10>>>>>>>>}
Asides == {<<>>, <<<<"wake", 1>>>>, <<<<"alive", 1>>>>, <<<<"wake", 1>>, <<"wake", 1>>>>}
\* around mutexes: locks are given back, taken in order, nobody sleeps holding one
RECURSIVE FairM(_, _)
FairM(held, p) == IF p = <<>> THEN held = {}
    ELSE LET c == Head(p)[1] i == Head(p)[2] IN
         CASE c = "lock" -> (\A m \in held : m < i) /\ FairM(held \cup {i}, Tail(p))
           [] c = "unlock" -> i \in held /\ FairM(held \ {i}, Tail(p))
           [] c = "msleep" -> held = {} /\ FairM(held, Tail(p))
           [] OTHER -> FairM(held, Tail(p))
MProgs == {p \in Seqs({<<c, i>> : c \in MNames, i \in 1..NW}, MaxLen) : FairM({}, p)}
Next ==
    \/ Kind = "run" /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED next /\ \E t \in 0..(NT - 1), c \in Names : \E i \in 1..NW : Works(t) /\ May(t, c, i) /\ s' \in T!Call(s, t, c, i) /\ op' = <<"call">>
    \/ Kind = "run" /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED next /\ \E t \in 0..(NT - 1), c \in MNames : \E i \in 1..2 : Works(t) /\ May(t, c, i) /\ s' \in T!Call(s, t, c, i) /\ op' = <<"call">>
    \/ Kind = "run" /\ UNCHANGED <<n, next>> /\ s' \in T!Tau(s) /\ op' = <<"tau">>
    \/ Kind = "run" /\ UNCHANGED <<n, next>> /\ \E t \in 0..(NT - 1) : s' \in T!Ret(s, t, IF s.th[t].v < 0 THEN 0 ELSE s.th[t].v) /\ op' = <<"ret">>
    \/ Kind = "run" /\ UNCHANGED n /\ next' = next + 1 /\ next < NT /\ \E w \in 1..NW : s' \in T!Vis(s, <<"begin", next, w>>) /\ op' = <<"begin">>
    \/ Kind = "run" /\ UNCHANGED <<n, next>> /\ \E t \in 1..(NT - 1), w \in 1..NW : ~Holds(t) /\ s' \in T!Vis(s, <<"end", t, w>>) /\ op' = <<"end">>
    \/ Kind = "run" /\ UNCHANGED <<n, next>> /\ \E t \in 0..(NT - 1) : ~s.th[t].asleep /\ s' \in T!Vis(s, <<"asleep", t>>) /\ op' = <<"asleep">>
    \/ Kind = "life" /\ n = 0 /\ n' = 1 /\ UNCHANGED <<s, next>> /\ \E p \in Mains, b \in Bodies, a \in Asides : p # <<>> /\ (b \in Forever => ~Running(FALSE, p)) /\ op' = <<"threads", p, <<b>>, IF a = <<>> THEN <<>> ELSE <<a>>, Preempt, Runs>>
    \/ Kind = "mutex" /\ n = 0 /\ n' = 1 /\ UNCHANGED <<s, next>> /\ \E a, b, c \in MProgs : Len(a) <= Len(b) /\ Len(b) <= Len(c) /\ b # <<>> /\ op' = <<"threads", <<>>, <<>>, <<a, b, c>>, Preempt, Runs>>
Bound == TRUE
EmitT == (Emit /\ Kind # "run") => PrintStep(<<1>>, op', <<1>>)
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(<<1>>)
\* only a thread that there is gets a name
Named == \A t \in 0..(NT - 1) : (s.th[t].op = "name" /\ s.th[t].ph = "fin") => s.th[t].v # 0
\* a thread that was interrupted, and the call has come back, has come to its end
Joined == \A w \in 1..NW : (s.th[0].op = "int" /\ s.th[0].i = w /\ s.th[0].ph = "fin") => s.st[w] \in {"end", "new"}
\* what holds up an interruption is only the thread's own work: it never sleeps on
NotAsleep == \A t \in 0..(NT - 1) : LET w == T!Obj(s, t) IN
    (w # 0 /\ ~s.alive[w] /\ s.th[t].ph = "go" /\ s.th[t].op \in {"sleep", "nap"}) => T!TauT(s, t) # {}
\* once nothing but sleepers is left, nobody waits who was woken
Woken == \A t \in 0..(NT - 1) : (s.th[t].ph = "go" /\ s.th[t].must) => T!TauT(s, t) # {}
\* a mutex is never held by someone whose work is over
NoOrphan == \A m \in DOMAIN s.own : s.own[m] > NP => T!Obj(s, s.own[m]) # 0
OneRuns == \A t \in 0..(NT - 1) : Cardinality({w \in 1..NW : s.who[w] = t /\ s.st[w] = "run"}) <= 1
=============================================================================
