------------------------------ MODULE PropsTrace ----------------------------
EXTENDS TraceLib
VARIABLES p, v, l          \* three properties, two variants
M == INSTANCE Props
Start == [i \in 1..3 |-> M!Fresh(M!Default)]
VStart == [i \in 1..2 |-> M!VNew]
Init == p = Start /\ v = VStart /\ l = 1
Bit(b) == IF b THEN 1 ELSE 0
\* the number of a property as its getters show it: whole, true, quarters
Shows(n, r) == CASE n[1] = "i" -> r[1] = n[2]
                 [] n[1] = "b" -> r[2] = n[2]
                 [] n[1] = "d" -> r[3] = n[2]
                 [] n[1] = "0" -> r = <<<<0, 0, 0>>, 0, 0>>
\* o: description, icon, text, type, number
ShowsP(q, o) == o[1] = q.d /\ o[2] = q.icon /\ o[3] = q.text /\ o[4] = q.type /\ Shows(q.num, o[5])
ShowsV(w, o) == /\ o[1] = w.type
                /\ w.type = M!KString => o[2] = w.text
                /\ w.type = M!KInteger => Shows(w.num, o[3])
                /\ w.type = M!KDouble => Shows(w.num, o[3])
Step(e) ==
    LET a == e.a
        r == e.r
    IN CASE e.op = "new" -> p' = Start /\ v' = VStart
         [] e.op = "make" -> p' = [p EXCEPT ![a[1]] = M!Fresh(a[2])] /\ UNCHANGED v
         \* only read-only, change mode and may-be-empty left out
         [] e.op = "short" -> p' = [p EXCEPT ![a[1]] = M!Fresh(a[2] \o <<0, 0, 1>>)] /\ UNCHANGED v
         [] e.op = "named" -> p' = [p EXCEPT ![a[1]] = M!Fresh(M!Named(a[2]))] /\ UNCHANGED v
         [] e.op = "text" -> p' = [p EXCEPT ![a[1]] = M!SetText(@, a[2])] /\ r = 1 /\ UNCHANGED v
         [] e.op = "whole" -> p' = [p EXCEPT ![a[1]] = M!SetWhole(@, a[2])] /\ r = 1 /\ UNCHANGED v
         [] e.op = "real" -> p' = [p EXCEPT ![a[1]] = M!SetReal(@, a[2])] /\ r = 1 /\ UNCHANGED v
         [] e.op = "truth" -> p' = [p EXCEPT ![a[1]] = M!SetTruth(@, a[2])] /\ r = 1 /\ UNCHANGED v
         [] e.op = "unit" -> p' = [p EXCEPT ![a[1]] = M!SetUnit(@, a[2], a[3])] /\ r = 1 /\ UNCHANGED v
         [] e.op = "kind" -> p' = [p EXCEPT ![a[1]] = M!SetKind(@, a[2])] /\ UNCHANGED v
         [] e.op = "icon" -> p' = [p EXCEPT ![a[1]] = M!SetIcon(@, a[2])] /\ UNCHANGED v
         [] e.op = "take" -> p' = [p EXCEPT ![a[1]] = M!Take(@, p[a[2]])] /\ UNCHANGED v
         [] e.op = "assign" -> p' = [p EXCEPT ![a[1]] = p[a[2]]] /\ UNCHANGED v
         [] e.op = "equals" -> /\ UNCHANGED <<p, v>>
                               /\ M!ValueTold(p[a[1]], p[a[2]]) => r = Bit(M!ValueEquals(p[a[1]], p[a[2]]))
         [] e.op = "same" -> /\ UNCHANGED <<p, v>>
                             /\ M!EqualTold(p[a[1]], p[a[2]]) => r = Bit(M!Equal(p[a[1]], p[a[2]]))
         [] e.op = "is" -> r = Bit(p[a[1]].d[1] = a[2]) /\ UNCHANGED <<p, v>>
         [] e.op = "vwhole" -> v' = [v EXCEPT ![a[1]] = M!VAssign(@, M!VWhole(a[2]))] /\ UNCHANGED p
         [] e.op = "vreal" -> v' = [v EXCEPT ![a[1]] = M!VAssign(@, M!VReal(a[2]))] /\ UNCHANGED p
         [] e.op = "vtext" -> v' = [v EXCEPT ![a[1]] = M!VAssign(@, M!VText(a[2]))] /\ UNCHANGED p
         [] e.op = "vnew" -> v' = [v EXCEPT ![a[1]] = M!VAssign(@, M!VNew)] /\ UNCHANGED p
         [] e.op = "vassign" -> v' = [v EXCEPT ![a[1]] = M!VAssign(@, v[a[2]])] /\ UNCHANGED p
         \* a copy made anew; the answer is what the copy shows
         [] e.op = "vcopy" -> UNCHANGED <<p, v>> /\ ShowsV(v[a[1]], r)
         \* the lower half of a whole number
         [] e.op = "vsmall" -> UNCHANGED <<p, v>> /\ (v[a[1]].type = M!KInteger /\ v[a[1]].num[2][1] = 0 /\ v[a[1]].num[2][2] = 0 => r = v[a[1]].num[2])
Next == /\ l <= Len(Trace) /\ Trace[l].x = 0
        /\ Step(Trace[l])
        /\ (\A i \in 1..3 : ShowsP(p'[i], Trace[l].o[1][i]))
        /\ (\A i \in 1..2 : ShowsV(v'[i], Trace[l].o[2][i]))
        /\ l' = l + 1
Mem == Remember(<<p, v>>)
=============================================================================
