-------------------------------- MODULE Pool --------------------------------
\* Counted objects and the pool of delayed releases, used by several threads.
\* A state is a record: cnt[o] references, pool[o] of them waiting in the pool, gone[o], flag[o], th[t] the call of a thread.
\* Tau(s): the states a call's effect leads to; Vis(s, e): the states an observed event leads to.
EXTENDS Integers, Sequences, FiniteSets

None(no) == [o \in 1..no |-> 0]
Idle(no) == [op |-> "", o |-> 0, ph |-> "idle", back |-> "", mine |-> None(no)]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
\* refs[o][t+1]: the references thread t holds
Start(refs, nt) ==
    LET no == Len(refs) IN
    [cnt |-> [o \in 1..no |-> Sum(refs[o])], pool |-> None(no), gone |-> [o \in 1..no |-> FALSE], flag |-> [o \in 1..no |-> 0],
     th |-> [t \in 0..(nt - 1) |-> Idle(no)]]
Objs(s) == DOMAIN s.cnt
\* thread t gives up a reference and goes on in phase back
Drop(s, t, o, back) ==
    LET last == s.cnt[o] = 1 IN
    [s EXCEPT !.cnt[o] = @ - 1, !.th[t].ph = IF last THEN "dtor" ELSE back, !.th[t].o = IF last THEN o ELSE @, !.th[t].back = back]
Fin(s, t) == [s EXCEPT !.th[t].ph = "fin"]
TauT(s, t) ==
    LET x == s.th[t] IN
    CASE x.ph = "go" /\ x.op = "retain" -> {Fin([s EXCEPT !.cnt[x.o] = @ + 1], t)}
      [] x.ph = "go" /\ x.op = "release" -> {Drop(s, t, x.o, "fin")}
      [] x.ph = "go" /\ x.op = "auto" -> {Fin([s EXCEPT !.pool[x.o] = @ + 1], t)}
      [] x.ph = "go" /\ x.op = "flag" -> {Fin([s EXCEPT !.flag[x.o] = 1], t)}
      [] x.ph = "go" /\ x.op = "drain" -> {[s EXCEPT !.th[t].mine = s.pool, !.pool = None(Len(s.cnt)), !.th[t].ph = "drain"]}
      [] x.ph = "drain" ->
            IF \A o \in Objs(s) : x.mine[o] = 0
            THEN {Fin(s, t)} \cup (IF s.pool = None(Len(s.cnt)) THEN {} ELSE {[s EXCEPT !.th[t].ph = "go"]})
            ELSE {Drop([s EXCEPT !.th[t].mine[o] = @ - 1], t, o, "drain") : o \in {o \in Objs(s) : x.mine[o] > 0}}
      [] OTHER -> {}
Tau(s) == UNION {TauT(s, t) : t \in DOMAIN s.th}
Call(s, t, op, o) == IF s.th[t].ph = "idle" THEN {[s EXCEPT !.th[t].op = op, !.th[t].o = o, !.th[t].ph = "go"]} ELSE {}
Ret(s, t) == IF s.th[t].ph = "fin" THEN {[s EXCEPT !.th[t] = Idle(Len(s.cnt))]} ELSE {}
Dtor(s, t, o) == IF s.th[t].ph = "dtor" /\ s.th[t].o = o /\ ~s.gone[o] THEN {[s EXCEPT !.gone[o] = TRUE, !.th[t].ph = s.th[t].back]} ELSE {}
\* what is left at the end, after a last drain: count and flag of every object
Ended(s) == \A t \in DOMAIN s.th : s.th[t].ph = "idle"
Left(s) == [k \in 1..(2 * Len(s.cnt)) |-> LET o == (k + 1) \div 2 IN IF s.gone[o] THEN 0 ELSE IF k % 2 = 1 THEN s.cnt[o] ELSE s.flag[o]]
Vis(s, e) ==
    CASE e[1] = "call" -> Call(s, e[2], e[3], e[4])
      [] e[1] = "ret" -> Ret(s, e[2])
      [] e[1] = "dtor" -> Dtor(s, e[2], e[3])
      [] e[1] = "end" -> IF Ended(s) /\ s.pool = None(Len(s.cnt)) /\ Left(s) = Tail(e) THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
