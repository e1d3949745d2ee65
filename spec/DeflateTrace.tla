---------------------------- MODULE DeflateTrace ----------------------------
EXTENDS TraceLib
\* tot: bytes read and written by the compressor since it was made or reset
VARIABLES st, tot, l
D == INSTANCE Deflate
Init == st = D!Empty /\ tot = <<0, 0>> /\ l = 1
Build == {"header", "stored", "fix", "dyn", "type3", "tokens", "close"}
Step(e) ==
    LET a == e.a IN
    CASE e.op = "new"  -> st' = D!Empty
      [] e.op \in Build -> st' = D!Apply(st, <<e.op>> \o a)
      \* reading the stream so far; a stream cut short or spoilt must be refused
      [] e.op \in {"inflate", "inflraw"} -> /\ UNCHANGED st
                             /\ IF st.bad \/ a[1] > 0 THEN e.x = 1
                                ELSE e.x = 0 /\ e.r = <<st.out, Len(st.out), 1>>
      \* compressing bytes: t holds the operations that write the stream found in the result
      [] e.op = "deflate" -> LET s == D!Run(e.t) IN
                             /\ UNCHANGED st /\ e.x = 0
                             /\ ~s.bad /\ s.mode = "end" /\ s.out = a[1]
                             /\ e.r[1] = D!Stream(s) \o D!Trailer(a[1])
                             /\ tot' = IF a[2] = 2 THEN <<tot[1] + Len(a[1]), tot[2] + Len(e.r[1])>> ELSE <<Len(a[1]), Len(e.r[1])>>
                             /\ <<e.r[2], e.r[3]>> = tot'
                             /\ e.r[4] = a[1]
Tail2(s, n) == SubSeq(s, n + 1, Len(s))
Legal(e) ==
    LET a == e.a IN
    CASE e.op \in Build -> D!Legal(st, <<e.op>> \o a)
      [] e.op \in {"inflate", "inflraw"} ->
            /\ st.mode = "end" \/ st.bad
            /\ a[1] = 0 \/ (~st.bad /\ a[1] > 0 /\ a[1] < Len(D!Stream(st)))
            /\ LET s == D!Stream(st) IN SubSeq(s, 1, Len(s) - a[1]) = (IF e.op = "inflraw" THEN SubSeq(s, 1, 2) \o a[2] ELSE a[2])
      [] e.op = "deflate" -> a[2] \in 0..2
      [] OTHER -> TRUE
Next ==
    /\ l <= Len(Trace)
    /\ Step(Trace[l])
    /\ Trace[l].op # "deflate" => UNCHANGED tot
    /\ l' = l + 1
Mem == (l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)) /\ Remember(<<st.mode, st.bad, st.out, tot>>)
=============================================================================
