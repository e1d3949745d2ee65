--------------------------------- MODULE Thr --------------------------------
\* Threads and mutexes. A state: st[w] and alive[w] of every thread object, who[w] the number of the thread that runs it, own[m] the
\* thread that holds mutex m (-1: none; mutexes 1..NM, and NM + w for the one of thread object w), th[t] the call of thread t.
\* A sleeping call: may = it may return, must = it has to (it was asleep when it was woken or interrupted).
EXTENDS Integers, Sequences, FiniteSets

NM == 3
Idle == [op |-> "", i |-> 0, ph |-> "idle", v |-> -1, may |-> FALSE, must |-> FALSE, asleep |-> FALSE]
Start(nw, nt) ==
    [st |-> [w \in 1..nw |-> "new"], alive |-> [w \in 1..nw |-> FALSE], who |-> [w \in 1..nw |-> -1],
     own |-> [m \in 1..(NM + nw) |-> -1], th |-> [t \in 0..(nt - 1) |-> Idle], over |-> FALSE]
Fin(s, t) == [s EXCEPT !.th[t].ph = "fin"]
FinV(s, t, v) == [s EXCEPT !.th[t].ph = "fin", !.th[t].v = v]
\* the thread object whose run() this thread executes (0: a plain thread)
Obj(s, t) == IF \E w \in DOMAIN s.who : s.who[w] = t /\ s.st[w] = "run" THEN CHOOSE w \in DOMAIN s.who : s.who[w] = t /\ s.st[w] = "run" ELSE 0
Sleeps(s, t) == s.th[t].ph = "go" /\ s.th[t].op \in {"sleep", "nap"}
MSleeps(s, t, m) == s.th[t].ph = "go" /\ s.th[t].op = "msleep" /\ s.th[t].i = m
Woken(s, T) == [s EXCEPT !.th = [u \in DOMAIN s.th |-> IF u \in T THEN [s.th[u] EXCEPT !.may = TRUE, !.must = @ \/ s.th[u].asleep] ELSE s.th[u]]]
Sleepers(s, w) == {t \in DOMAIN s.th : Sleeps(s, t) /\ s.who[w] = t}
TauT(s, t) ==
    LET x == s.th[t] IN
    IF x.ph # "go" THEN (IF x.ph = "join" /\ s.st[x.i] \in {"end", "new"} THEN {Fin(s, t)} ELSE {})
    ELSE
    CASE x.op = "start" -> {Fin([s EXCEPT !.st[x.i] = "started", !.alive[x.i] = TRUE], t)}
      \* after run() has ended, before an interruption, this document does not say
      [] x.op = "alive" -> {FinV(s, t, v) : v \in IF s.st[x.i] = "end" THEN {0, IF s.alive[x.i] THEN 1 ELSE 0} ELSE {IF s.alive[x.i] THEN 1 ELSE 0}}
      \* the thread that got the name (-1: none): the one that runs it, if there is one
      [] x.op = "name" -> {FinV(s, t, v) : v \in CASE s.st[x.i] = "run" -> {s.who[x.i]}
                                                  [] s.st[x.i] = "started" -> {u \in DOMAIN s.th : u > 0 /\ \A w \in DOMAIN s.who : s.who[w] # u}
                                                  [] s.st[x.i] = "end" /\ s.alive[x.i] -> {-1, s.who[x.i]}
                                                  [] OTHER -> {-1}}
      [] x.op = "wake" -> {Fin(Woken(s, Sleepers(s, x.i)), t)}
      [] x.op = "int" -> {[Woken([s EXCEPT !.alive[x.i] = FALSE], Sleepers(s, x.i)) EXCEPT !.th[t].ph = "join"]}
      [] x.op = "sleep" -> IF x.may \/ (Obj(s, t) # 0 /\ ~s.alive[Obj(s, t)]) THEN {Fin(s, t)} ELSE {}
      [] x.op = "nap" -> IF x.may \/ (Obj(s, t) # 0 /\ ~s.alive[Obj(s, t)]) THEN {FinV(s, t, 0)} ELSE {FinV(s, t, x.i)}
      [] x.op \in {"lock", "tlock"} -> LET m == IF x.op = "lock" THEN x.i ELSE NM + Obj(s, t) IN IF s.own[m] = -1 THEN {Fin([s EXCEPT !.own[m] = t], t)} ELSE {}
      [] x.op \in {"unlock", "tunlock"} -> LET m == IF x.op = "unlock" THEN x.i ELSE NM + Obj(s, t) IN IF s.own[m] = t THEN {Fin([s EXCEPT !.own[m] = -1], t)} ELSE {}
      [] x.op = "msleep" -> IF x.may THEN {Fin(s, t)} ELSE {}
      \* at least one of those asleep
      [] x.op = "mwake" ->
            LET all == {u \in DOMAIN s.th : MSleeps(s, u, x.i)}
                deep == {u \in all : s.th[u].asleep /\ ~s.th[u].must}
            IN  IF deep = {} THEN {Fin(Woken(s, all), t)}
                ELSE {Fin([Woken(s, all) EXCEPT !.th = [u \in DOMAIN s.th |-> IF u \in all THEN [s.th[u] EXCEPT !.may = TRUE, !.must = @ \/ u = d] ELSE s.th[u]]], t) : d \in deep}
      [] OTHER -> {}
Tau(s) == UNION {TauT(s, t) : t \in DOMAIN s.th}
\* a call that needs nothing else has to come to its end: what a thread may wait for for ever
Waits(s, t) ==
    LET x == s.th[t] IN
    CASE x.ph = "go" /\ x.op = "sleep" -> ~x.must /\ (Obj(s, t) # 0 => s.alive[Obj(s, t)])
      [] x.ph = "go" /\ x.op = "msleep" -> ~x.must
      \* the main thread waits for the plain ones
      [] t = 0 /\ x.ph = "idle" -> TRUE
      [] OTHER -> FALSE
Call(s, t, op, i) ==
    IF s.th[t].ph = "idle" THEN {[s EXCEPT !.th[t] = [Idle EXCEPT !.op = op, !.i = i, !.ph = "go"]]} ELSE {}
Ret(s, t, v) == IF s.th[t].ph = "fin" /\ (CASE s.th[t].op = "nap" -> v >= s.th[t].v [] s.th[t].op \in {"alive", "name"} -> v = s.th[t].v [] OTHER -> TRUE)
                THEN {[s EXCEPT !.th[t] = Idle]} ELSE {}
Vis(s, e) ==
    CASE e[1] = "call" -> Call(s, e[2], e[3], e[4])
      [] e[1] = "ret" -> Ret(s, e[2], e[3])
      [] e[1] = "begin" -> IF s.st[e[3]] = "started" THEN {[s EXCEPT !.st[e[3]] = "run", !.who[e[3]] = e[2]]} ELSE {}
      [] e[1] = "end" -> IF s.st[e[3]] = "run" /\ s.who[e[3]] = e[2] /\ s.th[e[2]].ph = "idle" THEN {[s EXCEPT !.st[e[3]] = "end"]} ELSE {}
      [] e[1] = "asleep" -> IF s.th[e[2]].ph = "go" /\ s.th[e[2]].op \in {"sleep", "nap", "msleep"}
                            THEN {[s EXCEPT !.th[e[2]].asleep = TRUE]} ELSE {}
      [] e[1] = "done" -> IF s.th[0].ph = "idle" THEN {[s EXCEPT !.over = TRUE]} ELSE {}
      \* nothing can go on: everybody has come to the end, or sleeps and was not woken
      [] e[1] = "stuck" -> IF /\ \A k \in 1..Len(e[2]) : Waits(s, e[2][k][1])
                              /\ \A t \in DOMAIN s.th : s.th[t].ph = "idle" \/ \E k \in 1..Len(e[2]) : e[2][k][1] = t
                              /\ \A w \in DOMAIN s.st : s.st[w] # "started"
                           THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
