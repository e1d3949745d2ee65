--------------------------------- MODULE Num --------------------------------
\* What the numeric helpers answer, in whole numbers.
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Bit(b) == IF b THEN 1 ELSE 0
\* rounding towards minus infinity
IsDiv(x, y, d) == d[1] * y + d[2] = x /\ Abs(d[2]) < Abs(y) /\ (d[2] = 0 \/ Sign(d[2]) = Sign(y))
\* k is n/d rounded to the nearest whole number, halves away from zero
IsRound(n, d, k) == /\ 2 * Abs(n - k * d) <= d
                    /\ 2 * Abs(n - k * d) = d => Abs(k * d) > Abs(n)
Pow10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000
\* two values `diff' units apart, ten units being the tolerance: equal, not equal, less, less or equal, greater,
\* greater or equal
Compared(diff) == LET eq == Abs(diff) < 10
                  IN <<Bit(eq), Bit(~eq), Bit(diff < 0 /\ ~eq), Bit(diff < 0 \/ eq), Bit(diff > 0 /\ ~eq), Bit(diff > 0 \/ eq)>>
\* unsigned 32 bit numbers, as two halves
RECURSIVE Powers(_)
Powers(k) == IF k = 0 THEN <<<<0, 1>>>>
             ELSE LET s == Powers(k - 1)
                      p == s[k]
                  IN s \o <<IF p[2] = 32768 THEN <<1, 0>> ELSE <<2 * p[1], 2 * p[2]>>>>
AtMost(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
AllPowers == Powers(31)
IsPower(x) == \E i \in DOMAIN AllPowers : AllPowers[i] = x
\* the least power of two that is not less
IsCeil(x, p) == IsPower(p) /\ AtMost(x, p) /\ \A i \in DOMAIN AllPowers : AtMost(x, AllPowers[i]) => AtMost(p, AllPowers[i])
=============================================================================
