------------------------------ MODULE EncTrace ------------------------------
EXTENDS TraceLib
\* t: a text, b: its bytes in some character set
VARIABLES t, b, l
E == INSTANCE Enc
Init == t = <<>> /\ b = <<>> /\ l = 1
Fail(e, bad) == e.x = IF bad THEN 1 ELSE 0
Step(e) ==
    LET a == e.a IN
    CASE e.op = "new"   -> t' = <<>> /\ b' = <<>>
      [] e.op = "text"  -> t' = a[1] /\ UNCHANGED b
      [] e.op = "bytes" -> b' = a[1] /\ UNCHANGED t
      [] e.op \in {"enc", "encarr"} -> e.x = 0 /\ b' = E!Enc(a[1], t) /\ UNCHANGED t
      [] e.op \in {"dec", "decz", "decn", "decarr"} ->
            /\ Fail(e, E!Refused(a[1], b)) /\ UNCHANGED b
            /\ t' = IF e.x = 1 THEN t ELSE E!Dec(a[1], b)
      [] e.op = "guess" -> UNCHANGED <<t, b>> /\ e.x = 0 /\ e.r[1] \in E!Guess(b)
      [] e.op = "known" -> UNCHANGED <<t, b>> /\ e.x = 0 /\ e.r = <<IF a[1] \in E!Sets THEN a[1] ELSE "">>
      [] e.op = "alias" -> UNCHANGED <<t, b>> /\ e.x = 0 /\ e.r = <<IF \E k \in 1..Len(a[2]) : a[2][k] = a[1] THEN 1 ELSE 0>>
      [] e.op = "urlenc" -> e.x = 0 /\ t' = E!UrlEnc(t) /\ UNCHANGED b
      [] e.op = "urldec" -> /\ Fail(e, E!UrlRefused(t)) /\ UNCHANGED b
                            /\ t' = IF e.x = 1 THEN t ELSE E!UrlDec(t)
Legal(e) ==
    CASE e.op \in {"enc", "encarr"} -> E!Expressible(e.a[1], t)
      [] e.op \in {"dec", "decz", "decn", "decarr"} -> E!Decodable(e.a[1], b)
      [] e.op = "urldec" -> E!UrlOk(t, 1)
      [] OTHER -> TRUE
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
        /\ Step(e)
        /\ e.o = <<t', b'>>
    /\ l' = l + 1
Mem == (l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)) /\ Remember(<<t, b>>)
=============================================================================
