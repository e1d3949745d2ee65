------------------------------- MODULE FmtTrace -----------------------------
EXTENDS TraceLib
VARIABLES s, l
F == INSTANCE FmtFn
Init == s = <<>> /\ l = 1
Is(e, t) == e.x = 0 /\ e.r = <<t>> /\ UNCHANGED s
B(b) == IF b THEN 1 ELSE 0
Step(e) ==
    LET a == e.a IN
    CASE e.op = "new"   -> s' = <<>>
      [] e.op = "tmpl"  -> s' = a[1]
      [] e.op = "args"  -> e.x = 0 /\ s' = F!Arg(s, a[1], a[2], a[3])
      [] e.op = "argc"  -> e.x = 0 /\ s' = F!Arg(s, <<a[1]>>, a[2], a[3])
      [] e.op \in {"argi", "argu", "argi32", "argu32"} -> e.x = 0 /\ s' = F!Arg(s, F!NumText(a[1], a[2]), a[3], a[4])
      [] e.op = "argd"  -> e.x = 0 /\ s' = F!Arg(s, F!DblText(a[1], a[2], a[3], a[4], IF a[5] < 0 THEN 6 ELSE a[5], a[5] < 0), a[6], a[7])
      [] e.op \in {"int", "uint", "shl"} -> Is(e, F!NumText(a[1], a[2]))
      [] e.op = "dbl"   -> Is(e, F!DblText(a[1], a[2], a[3], a[4], a[5], a[6] = 1))
      [] e.op = "toint" -> LET v == F!ParseInt(a[1]) IN UNCHANGED s /\ IF v = <<>> THEN e.x = 1 ELSE e.x = 0 /\ e.r = v
      [] e.op = "bool"  -> e.x = 0 /\ UNCHANGED s /\ e.r = <<B(F!IsTrue(a[1]))>>
      \* appended to the text, or put in front of it, through the operators
      [] e.op = "cat"   -> e.x = 0 /\ s' = s \o F!NumText(a[2], a[3])
      [] e.op = "pre"   -> e.x = 0 /\ s' = F!NumText(a[1], a[2]) \o s
      [] e.op = "catr"  -> e.x = 0 /\ s' = s \o F!RealText(a[2], a[3], a[4])
      [] e.op = "prer"  -> e.x = 0 /\ s' = F!RealText(a[1], a[2], a[3]) \o s
      [] e.op = "catt"  -> e.x = 0 /\ s' = s \o a[2]
      [] e.op = "pret"  -> e.x = 0 /\ s' = a[2] \o s
      [] e.op = "real"  -> Is(e, F!RealText(a[1], a[2], a[3]))
      [] e.op = "truth" -> Is(e, IF a[1] = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>)
      \* w + f/2^k written with point and read again
      [] e.op \in {"todbl", "comma"} -> e.x = 0 /\ UNCHANGED s /\ e.r = <<1>>
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN Step(e) /\ e.o = s'
    /\ l' = l + 1
Mem == Remember(s)
=============================================================================
