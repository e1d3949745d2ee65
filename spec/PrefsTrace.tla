----------------------------- MODULE PrefsTrace -----------------------------
EXTENDS TraceLib, FiniteSets
VARIABLES m, file, l
P == INSTANCE Prefs
\* m: the map; file: the bytes of the file, <<-1>> if there is none
Init == m = P!Empty /\ file = <<-1>> /\ l = 1
B(b) == IF b THEN 1 ELSE 0
Step(e) ==
    LET a == e.a IN
    CASE e.op = "new" -> m' = P!Empty /\ file' = <<-1>>
      [] e.op = "fresh" -> m' = P!Empty /\ UNCHANGED file
      [] e.op \in {"set", "setlit"} -> m' = P!Put(m, a[1], a[2]) /\ UNCHANGED file
      [] e.op = "setint" -> m' = P!Put(m, a[1], P!Num(a[2])) /\ UNCHANGED file
      [] e.op = "setreal" -> m' = P!Put(m, a[1], P!RealText(a[2], a[3], a[4])) /\ UNCHANGED file
      [] e.op = "getreal" -> UNCHANGED <<m, file>> /\ LET v == P!Get(m, a[1]) IN
             (v = <<>> \/ P!IsReal(v)) => e.r = <<P!GetReal(m, a[1], a[2])>>
      [] e.op = "setbool" -> m' = P!Put(m, a[1], IF a[2] = 1 THEN P!True ELSE P!False) /\ UNCHANGED file
      [] e.op = "get" -> UNCHANGED <<m, file>> /\ e.r = <<P!Get(m, a[1]), B(P!Has(m, a[1]))>>
      [] e.op = "getor" -> UNCHANGED <<m, file>> /\ e.r = <<P!GetOr(m, a[1], a[2])>>
      [] e.op = "getint" -> UNCHANGED <<m, file>> /\ e.r = <<P!GetInt(m, a[1], a[2])>>
      [] e.op = "getbool" -> UNCHANGED <<m, file>> /\ e.r = <<P!GetBool(m, a[1], a[2])>>
      \* the lines of the file are those of the map
      [] e.op = "save" -> UNCHANGED m /\ file' = e.r[1] /\ \E x \in {P!LoadBytes(P!Empty, file')} : x = m
      [] e.op = "write" -> UNCHANGED m /\ file' = a[1]
      [] e.op = "load" -> UNCHANGED file /\ m' = (IF file = <<-1>> THEN m ELSE P!LoadBytes(m, file))
      [] e.op = "mo" -> UNCHANGED file /\ m' = P!Extend(m, a[1])
      [] e.op = "momany" -> UNCHANGED file /\ m' = P!Many(m, a[1], a[2], a[3])
      [] e.op = "tr" -> UNCHANGED <<m, file>> /\ e.r = <<P!Translate(m, a[1])>>
Next == l <= Len(Trace) /\ Trace[l].x = 0 /\ Step(Trace[l]) /\ Trace[l].o = <<Cardinality(DOMAIN m')>> /\ l' = l + 1
Legal(e) == CASE e.op = "setint" -> e.a[2] # <<>> /\ P!IsNum(e.a[2])
              [] e.op = "getint" -> P!IsNum(P!Get(m, e.a[1])) => Len(P!Get(m, e.a[1])) < 19
              [] e.op = "save" -> P!Storable(m)
              [] e.op = "mo" -> P!Plain(e.a[1])
              [] OTHER -> TRUE
Mem == (l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)) /\ Remember(<<m, file>>)
=============================================================================
