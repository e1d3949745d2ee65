------------------------------- MODULE NumTrace -----------------------------
EXTENDS TraceLib
VARIABLES l
M == INSTANCE Num
Init == l = 1
Step(e) ==
    LET a == e.a
        r == e.r
    IN CASE e.op = "new" -> TRUE
         [] e.op = "div" -> M!IsDiv(a[1], a[2], r)
         [] e.op = "mod0" -> r[1] = 0
         [] e.op = "round" -> M!IsRound(a[1], 8, r[1])
         \* eighths, to some decimal places (double, float); the answer in units of the last place
         [] e.op = "frac" -> M!IsRound(a[1] * M!Pow10(a[2]), 8, r[1]) /\ r[2] = r[1]
         \* millions and eighths of the same sign
         [] e.op = "fracBig" -> M!IsRound(a[2] * M!Pow10(a[3]), 8, r[1])
         \* a quotient (thousand millions, rest), a divisor and a remainder of its sign
         [] e.op = "divBig" -> r = <<a[1], a[2], a[4]>>
         [] e.op = "cmp" -> r = M!Compared(a[2] - a[3])
         [] e.op = "sign" -> r[1] = M!Sign(a[1])
         [] e.op = "pow2" -> (a[1] < 32768 => r[1] = M!Bit(M!IsPower(a))) /\ M!IsCeil(a, <<r[2], r[3]>>)
         [] e.op = "nopow" -> r[1] = 0
         [] e.op = "swap" -> r = <<a[3], a[2]>>
         [] e.op = "swapSame" -> r = <<a[2]>>
         \* of many random numbers the least and the greatest
         [] e.op = "random" -> a[1] <= r[1] /\ r[1] <= r[2] /\ r[2] <= a[2]
         [] e.op = "unit" -> r = <<1, 1>>
         \* eighths of the way, in eighths
         [] e.op = "mix" -> r[1] = 8 * a[1] + a[3] * (a[2] - a[1]) /\ r[2] = r[1]
         [] e.op = "mix5" -> r[1] = a[1] * (a[4] - a[3]) + (a[5] - a[3]) * (a[2] - a[1])
         \* degrees: there (millionths) and back (thousandths)
         [] e.op = "deg" -> 100 * (r[1] - 2) <= a[1] * 1745329 + 400 /\ a[1] * 1745329 - 400 <= 100 * (r[1] + 2) /\ r[2] = 1000 * a[1]
         [] e.op = "nan" -> r = <<1, 0, 0>>
         [] e.op = "eps" -> r = <<1, 1>>
Next == l <= Len(Trace) /\ Trace[l].x = 0 /\ Step(Trace[l]) /\ l' = l + 1
Mem == Remember(l)
=============================================================================
