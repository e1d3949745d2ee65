---------------------------- MODULE NotationTrace ----------------------------
EXTENDS TraceLib
\* b: bytes; t: their Base64 text; h: a 64-bit integer
VARIABLES b, t, h, l
N == INSTANCE Notation
Init == b = <<>> /\ t = <<>> /\ h = N!Zeros(16) /\ l = 1
Step(e) ==
    LET a == e.a IN
    CASE e.op = "new"    -> b' = <<>> /\ t' = <<>> /\ h' = N!Zeros(16)
      [] e.op = "bytes"  -> b' = a[1] /\ UNCHANGED <<t, h>>
      [] e.op = "text"   -> t' = a[1] /\ UNCHANGED <<b, h>>
      [] e.op = "enc64"  -> t' = N!Enc64(b) /\ UNCHANGED <<b, h>>
      [] e.op = "dec64"  -> b' = N!Dec64(t) /\ UNCHANGED <<t, h>>
      [] e.op = "crc"    -> UNCHANGED <<b, t, h>> /\ e.r = <<N!Crc16(a[1], b)>>
      [] e.op = "num"    -> h' = N!Num(a[1], a[2]) /\ UNCHANGED <<b, t>>
      [] e.op = "digits" -> h' = N!Num(a[1], a[2]) /\ UNCHANGED <<b, t>> /\ e.r = <<Len(a[2]) + a[1]>>
      [] e.op = "hex"    -> UNCHANGED <<b, t, h>> /\ e.r = <<N!Hex(h)>>
      [] e.op = "fromhex" -> UNCHANGED <<b, t>> /\ h' = N!FromHex(a[1])
      [] e.op = "parthex" -> UNCHANGED <<b, t>> /\ h' = N!FromHex(SubSeq(a[1], a[2] + 1, a[2] + a[3]))
      [] e.op = "roman"  -> UNCHANGED <<b, t, h>> /\ e.r = <<N!Roman(a[1])>>
      [] e.op = "latin"  -> UNCHANGED <<b, t, h>> /\ Len(e.r) = 1 /\ N!IsLatin(e.r[1]) /\ N!LatinValue(e.r[1]) = h
                            /\ Len(e.r[1]) <= 14
Legal(e) ==
    CASE e.op = "dec64" -> N!Good64(t)
      [] e.op = "latin" -> h[1] < 8 /\ h # N!Zeros(16)
      [] OTHER -> TRUE
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
        /\ e.x = 0
        /\ Step(e)
        /\ e.o = <<b', t', h'>>
    /\ l' = l + 1
Mem == (l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)) /\ Remember(<<b, t, h>>)
=============================================================================
