---------------------------- MODULE StreamsTrace ----------------------------
EXTENDS TraceLib
VARIABLES disk, st, l
S == INSTANCE Streams
E == INSTANCE Enc
P == 1..2
V == 1..3
Init == disk = [p \in P |-> <<>>] /\ st = [v \in V |-> S!None] /\ l = 1
Moved(v, pos, what) == st' = [st EXCEPT ![v] = [@ EXCEPT !.pos = pos, !.last = what]]
Writing(v, b, e) ==
    LET s == st[v]
        n == S!Room(s, b)
        c == SubSeq(b, 1, n)
    IN  /\ e.x = 0 /\ e.r = <<n>>
        /\ disk' = IF s.k = "file" /\ n > 0 THEN [disk EXCEPT ![s.p] = <<S!Put(@[1], s.pos, c)>>] ELSE disk
        /\ st' = [st EXCEPT ![v] = [@ EXCEPT !.pos = s.pos + n, !.last = "write",
                                             !.mem = IF s.k = "mem" THEN S!Put(@, s.pos, c) ELSE @]]
Step(e) ==
    LET a == e.a
        v == a[1]
        s == st[v]
    IN
    CASE e.op = "new"  -> disk' = [p \in P |-> <<>>] /\ st' = [i \in V |-> S!None] /\ e.x = 0
      [] e.op = "file" -> st' = [st EXCEPT ![v] = S!Closed(a[2])] /\ UNCHANGED disk /\ e.x = 0
      [] e.op = "mem"  -> st' = [st EXCEPT ![v] = S!Mem(a[2])] /\ UNCHANGED disk /\ e.x = 0
      [] e.op = "create" -> /\ e.x = 0 /\ UNCHANGED st /\ e.r = <<IF disk[s.p] = <<>> THEN 1 ELSE 0>>
                            /\ disk' = IF disk[s.p] = <<>> THEN [disk EXCEPT ![s.p] = <<<<>>>>] ELSE disk
      [] e.op = "open" ->
            /\ e.x = 0
            /\ IF S!CanOpen(disk, s, a[2])
               THEN /\ e.r = <<"ok">>
                    /\ st' = [st EXCEPT ![v] = [@ EXCEPT !.mode = IF s.k = "mem" THEN "rw" ELSE a[2], !.pos = 0, !.last = ""]]
                    /\ disk' = IF s.k = "file" /\ a[2] = "w" THEN [disk EXCEPT ![s.p] = <<<<>>>>] ELSE disk
               ELSE e.r = <<"notfound">> /\ UNCHANGED <<disk, st>>
      [] e.op \in {"read", "readfully"} ->
            LET g == S!Got(disk, s, a[2]) IN
            /\ e.x = 0 /\ e.r = <<g>> /\ UNCHANGED disk /\ Moved(v, s.pos + Len(g), "read")
      [] e.op = "write" -> Writing(v, a[2], e)
      [] e.op = "writetext" -> Writing(v, E!Enc("UTF-8", a[2]), e)
      [] e.op \in {"seek", "move"} ->
            LET to == IF e.op = "seek" THEN a[2] ELSE s.pos + a[2] IN
            /\ UNCHANGED disk
            /\ e.x = IF s.k = "file" /\ to < 0 THEN 1 ELSE 0
            /\ IF S!Reaches(s, to) THEN Moved(v, to, "") ELSE UNCHANGED st
      [] e.op = "close" -> /\ e.x = 0 /\ UNCHANGED disk
                           /\ st' = [st EXCEPT ![v] = [@ EXCEPT !.pos = 0, !.mode = IF s.k = "mem" THEN "rw" ELSE "", !.last = ""]]
      [] e.op = "size" -> e.x = 0 /\ UNCHANGED <<disk, st>>
                          /\ e.r = <<IF s.k = "file" /\ disk[s.p] = <<>> THEN 0 ELSE Len(S!Data(disk, s))>>
Busy(p) == \E v \in V : st[v].k = "file" /\ st[v].p = p /\ st[v].mode \in {"w", "rw"}
Used(p) == \E v \in V : st[v].k = "file" /\ st[v].p = p /\ st[v].mode # ""
Legal(e) ==
    LET v == e.a[1]
        s == st[v]
    IN
    CASE e.op \in {"file", "mem"} -> s.k # "file" \/ s.mode = ""
      [] e.op = "create" -> s.k = "file" /\ s.mode = ""
      [] e.op = "open" -> s.k = "mem" \/ (s.k = "file" /\ s.mode = ""
                            /\ ~(IF e.a[2] = "r" THEN Busy(s.p) ELSE Used(s.p)))
      [] e.op \in {"read", "readfully"} -> s.mode # "" /\ (s.k = "mem" \/ s.last # "write")
      [] e.op \in {"write", "writetext"} -> s.mode # "" /\ (s.k = "mem" \/ s.last # "read")
      [] e.op \in {"seek", "move"} -> s.mode # ""
      [] e.op = "close" -> s.k # "none"
      [] e.op = "size" -> s.k = "mem" \/ (s.k = "file" /\ ~Busy(s.p))
      [] OTHER -> TRUE
\* observed: whether each stream is open and where it stands; files nobody writes to
See(s) == IF s.k = "none" THEN <<>> ELSE IF s.k = "file" /\ s.mode = "" THEN <<0>> ELSE <<1, s.pos>>
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
        /\ Step(e)
        /\ e.o[1] = [v \in V |-> See(st'[v])]
        /\ \A p \in P : Busy(p)' \/ e.o[2][p] = disk'[p]
        /\ e.o[3] = [v \in V |-> IF st'[v].k = "mem" THEN st'[v].mem ELSE <<>>]
    /\ l' = l + 1
Mem == (l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)) /\ Remember(<<disk, st>>)
=============================================================================
