------------------------------ MODULE ColorTrace ----------------------------
EXTENDS TraceLib
VARIABLES c, k, l          \* the two colours worked on
C == INSTANCE Color
Black == <<1, <<0, 0, 0>>, 255>>
Init == c = Black /\ k = Black /\ l = 1
Bit(b) == IF b THEN 1 ELSE 0
Same == UNCHANGED <<c, k>>
Step(e) ==
    LET a == e.a
        r == e.r
    IN CASE e.op = "new" -> c' = Black /\ k' = Black
         [] e.op = "a" -> c' = <<a[1], a[2], a[3]>> /\ UNCHANGED k
         [] e.op = "b" -> k' = <<a[1], a[2], a[3]>> /\ UNCHANGED c
         [] e.op = "copy" -> k' = c /\ UNCHANGED c
         [] e.op = "part" -> c' = [c EXCEPT ![2][a[1]] = a[2]] /\ UNCHANGED k
         [] e.op = "alpha" -> c' = [c EXCEPT ![3] = a[1]] /\ UNCHANGED k
         \* the conversions leave open what becomes of the transparency of a colour that changes its mode
         [] e.op = "rgb" -> c' = C!ToRgb(c) /\ UNCHANGED k
         [] e.op = "grey" -> UNCHANGED k /\ C!IsColor(e.o[1]) /\ C!IsGreyOf(c, e.o[1]) /\ e.o[1][3] \in {c[3], 255} /\ c' = e.o[1]
         [] e.op = "cmyk" -> UNCHANGED k /\ C!IsColor(e.o[1]) /\ C!IsCmykOf(c, e.o[1]) /\ e.o[1][3] \in {c[3], 255} /\ c' = e.o[1]
         [] e.op = "plus" -> c' = C!Plus(c, k) /\ UNCHANGED k
         [] e.op = "minus" -> c' = C!Minus(c, k) /\ UNCHANGED k
         [] e.op = "same" -> Same /\ r = <<Bit(c = k), Bit(c # k)>>
         [] e.op = "white" -> Same /\ r[1] = Bit(C!White(c))
         [] e.op = "hsv" -> Same /\ C!IsHsvOf(c, r)
         [] e.op = "fromhsv" -> Same /\ C!IsColor(r) /\ C!IsFromHsv(a[1], a[2], a[3], a[4], r)
         \* through the model and back
         [] e.op = "viahsv" -> Same /\ C!IsColor(r) /\ \A i \in 1..3 : C!Abs(r[2][i] - C!AsRgb(c)[i]) <= 1
         [] e.op = "blend" -> Same /\ C!IsColor(r) /\ C!IsBlend(k, c, a[1], r)
         [] e.op = "mix" -> Same /\ C!IsColor(r) /\ C!IsInterpolation(c, k, a[1], r)
Next == l <= Len(Trace) /\ Trace[l].x = 0 /\ Step(Trace[l]) /\ <<c', k'>> = <<Trace[l].o[1], Trace[l].o[2]>> /\ l' = l + 1
Mem == Remember(<<c, k>>)
=============================================================================
