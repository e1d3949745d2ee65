------------------------------ MODULE ZipTrace ------------------------------
EXTENDS TraceLib
\* by[v]: bytes of the archive file v; whole[v]: they are not damaged; w[v]: what is being written to it: <<>> or
\* <<entries, current data>> with current = <<>> or <<data>>; rd[v]: its contents as opened, <<>> if it is not;
\* user: the other files of the directory, with their contents
VARIABLES by, whole, w, rd, user, l
vars == <<by, whole, w, rd, user>>
Z == INSTANCE Zip
E == INSTANCE Enc
V == 1..3
Init0 == by = [v \in V |-> <<>>] /\ whole = [v \in V |-> TRUE] /\ w = [v \in V |-> <<>>] /\ rd = [v \in V |-> <<>>] /\ user = <<>>
Init == Init0 /\ l = 1
Text(b) == E!Dec("UTF-8", b)
Refused(p) == \E k \in 1..Len(p.entries) : E!Refused("UTF-8", p.entries[k].name)
Listing(p) == [k \in 1..Len(p.entries) |->
                 <<Text(p.entries[k].name), p.entries[k].size, IF Z!IsDir(Text(p.entries[k].name)) THEN 1 ELSE 0>>]
Cur(v) == w[v][2]
Step(e) ==
    LET a == e.a
        v == a[1]
    IN
    CASE e.op = "new" -> by' = [i \in V |-> <<>>] /\ whole' = [i \in V |-> TRUE] /\ w' = [i \in V |-> <<>>]
                          /\ rd' = [i \in V |-> <<>>] /\ user' = <<>> /\ e.x = 0
      [] e.op = "user" -> user' = Append(user, <<a[1], a[2]>>) /\ UNCHANGED <<by, whole, w, rd>> /\ e.x = 0
      [] e.op = "wopen" -> w' = [w EXCEPT ![v] = <<<<>>, <<>>>>] /\ UNCHANGED <<by, whole, rd, user>> /\ e.x = 0
      [] e.op = "put" -> w' = [w EXCEPT ![v] = <<Append(w[v][1], <<E!Enc("UTF-8", a[2]), <<>>>>), <<<<>>>>>>]
                         /\ UNCHANGED <<by, whole, rd, user>> /\ e.x = 0
      [] e.op = "write" -> w' = [w EXCEPT ![v][2][1] = @ \o SubSeq(a[2], a[3] + 1, a[3] + a[4])]
                           /\ UNCHANGED <<by, whole, rd, user>> /\ e.x = 0
      [] e.op \in {"closeentry", "writefile"} ->
            LET d == IF e.op = "writefile" THEN a[2] ELSE Cur(v)[1]
                es == w[v][1]
            IN  w' = [w EXCEPT ![v] = <<[es EXCEPT ![Len(es)] = <<@[1], d>>], <<>>>>]
                /\ UNCHANGED <<by, whole, rd, user>> /\ e.x = 0
      [] e.op = "wclose" ->
            /\ e.x = 0
            /\ by' = [by EXCEPT ![v] = e.r[1]] /\ whole' = [whole EXCEPT ![v] = TRUE]
            /\ Z!WellFormed(e.r[1]) /\ Z!Contents(e.r[1]) = w[v][1]
            /\ w' = [w EXCEPT ![v] = <<>>] /\ UNCHANGED <<rd, user>>
      [] e.op = "load" -> by' = [by EXCEPT ![v] = a[2]] /\ whole' = [whole EXCEPT ![v] = a[3] = 0]
                          /\ UNCHANGED <<w, rd, user>> /\ e.x = 0
      [] e.op = "ropen" ->
            \E p \in {Z!Parse(by[v])} :
            /\ UNCHANGED <<by, whole, w, user>>
            /\ IF e.x = 1 THEN TRUE = (~p.ok \/ Refused(p)) /\ rd' = [rd EXCEPT ![v] = <<>>]
               ELSE p.ok /\ rd' = [rd EXCEPT ![v] = <<p>>] /\ e.r = <<Listing(p), Text(p.comment)>>
      [] e.op = "find" ->
            LET p == rd[v][1]
                m == {k \in 1..Len(p.entries) : Text(p.entries[k].name) = a[2]}
            IN  /\ UNCHANGED vars /\ e.x = 0
                /\ e.r = <<IF m = {} THEN 0 ELSE CHOOSE k \in m : \A j \in m : k <= j>>
      [] e.op = "tryread" /\ rd[v] = <<>> -> UNCHANGED vars /\ e.x = 0 /\ e.r = <<>>
      [] e.op \in {"read", "tryread"} ->
            LET p == rd[v][1] IN
            /\ UNCHANGED vars
            /\ IF a[2] > Len(p.entries) THEN e.x = 0 /\ e.r = <<>>
               ELSE LET n == p.entries[a[2]] IN
                    IF e.x = 1 THEN TRUE = (Z!Unreadable(by[v], n) \/ (Z!Method(by[v], n) = 8 /\ ~whole[v]))
                    ELSE /\ ~Z!Unreadable(by[v], n)
                         /\ Len(e.r) = 1 /\ Len(e.r[1]) = n.size
                         /\ Z!Method(by[v], n) = 0 => e.r[1] = Z!Stored(by[v], n)
                         /\ whole[v] => Z!Crc32(e.r[1]) = n.crc
      [] e.op \in {"rclose", "tryclose"} -> rd' = [rd EXCEPT ![v] = <<>>] /\ UNCHANGED <<by, whole, w, user>> /\ e.x = 0
Legal(e) ==
    LET v == e.a[1] IN
    CASE e.op = "wopen" -> w[v] = <<>> /\ rd[v] = <<>>
      [] e.op = "put" -> w[v] # <<>> /\ Cur(v) = <<>>
      [] e.op \in {"write", "closeentry"} -> w[v] # <<>> /\ Cur(v) # <<>>
      [] e.op = "writefile" -> w[v] # <<>> /\ Cur(v) = <<<<>>>>
      [] e.op = "wclose" -> w[v] # <<>> /\ Cur(v) = <<>>
      [] e.op = "load" -> w[v] = <<>> /\ rd[v] = <<>>
      [] e.op = "ropen" -> w[v] = <<>>
      [] e.op \in {"find", "read", "rclose"} -> rd[v] # <<>>
      [] OTHER -> TRUE
\* while nothing is being written into an entry, the directory holds no other files than the user's
Quiet == \A v \in V : w[v] = <<>> \/ w[v][2] = <<>>
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
        /\ Step(e)
        /\ Quiet' => {e.o[k] : k \in 1..Len(e.o)} = {user'[k] : k \in 1..Len(user')}
        /\ {user'[k] : k \in 1..Len(user')} \subseteq {e.o[k] : k \in 1..Len(e.o)}
    /\ l' = l + 1
Mem == (l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)) /\ Remember(vars)
=============================================================================
