------------------------------ MODULE XmlTrace ------------------------------
EXTENDS TraceLib
VARIABLES w, l
X == INSTANCE Xml
B == INSTANCE Notation
F == INSTANCE FmtFn
\* w: the writer
Init == w = X!W0 /\ l = 1
Step(e) ==
    LET a == e.a IN
    CASE e.op = "new" -> w' = X!W0
      [] e.op = "start" -> w' = X!WStart(w, a[1])
      [] e.op = "attr" -> w' = X!WAttr(w, a[1], a[2])
      [] e.op = "text" -> w' = X!WText(w, a[1])
      \* already encoded text
      [] e.op = "raw" -> w' = X!WText(w, X!Parse(<<60, 97, 62>> \o a[1]).tx)
      [] e.op = "base64" -> w' = X!WText(w, B!Enc64(a[1]))
      [] e.op = "indent" -> w' = X!WIndent(w)
      [] e.op = "unindent" -> w' = X!WUnindent(w)
      [] e.op = "end" -> w' = X!WEnd(w)
      [] e.op = "finish" -> /\ w' = X!W0
                            /\ \E p \in {X!Parse(e.r[1])} : X!WellFormed(p) /\ p.it = w.it
                            /\ e.r[2] = w.it
      [] e.op = "parse" -> UNCHANGED w /\ e.r = <<X!Parse(a[1]).it>>
      \* attributes as whole numbers, truth values, and (third place: is it one) numbers of eighths
      [] e.op = "typed" -> UNCHANGED w /\ e.r = [k \in DOMAIN a[1] |->
             LET x == a[1][k] IN <<F!ParseInt(x[2]), IF F!IsTrue(x[2]) THEN 1 ELSE 0, IF x[3] = 1 THEN x[4] ELSE 0>>]
      \* whatever it reports, it ends
      [] e.op = "junk" -> UNCHANGED w
Next == l <= Len(Trace) /\ Trace[l].x = 0 /\ Step(Trace[l]) /\ l' = l + 1
Fresh(n) == w.fr = <<>> \/ X!Top(w)[3] \/ \A k \in 1..Len(w.it[Len(w.it)][3]) : w.it[Len(w.it)][3][k][1] # n
Legal(e) == CASE e.op = "start" -> w.fr # <<>> \/ w.it = <<>>
              [] e.op = "attr" -> Fresh(e.a[1])
              [] e.op = "text" -> w.fr # <<>>
              [] e.op = "base64" -> w.fr # <<>> /\ (~X!Top(w)[3] \/ X!Top(w)[4])
              [] e.op = "raw" -> w.fr # <<>> /\ X!Parse(<<60, 97, 62>> \o e.a[1]).m = "text"
              [] e.op \in {"indent", "unindent"} -> TRUE
              [] e.op = "finish" -> w.fr = <<>> /\ w.it # <<>>
              [] e.op = "parse" -> X!WellFormed(X!Parse(e.a[1]))
              [] OTHER -> TRUE
Mem == (l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)) /\ Remember(w)
=============================================================================
