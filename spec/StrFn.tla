-------------------------------- MODULE StrFn -------------------------------
\* Texts as sequences of UTF-16 code units, and what the library's text functions mean on them. Positions
\* are zero-based as in the library.
EXTENDS Integers, Sequences, FiniteSets

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* characters b .. e-1
Cut(s, b, e) == SubSeq(s, b + 1, e)
Sub(s, b, e) ==
    LET b1 == Max2(b, 0)
        e1 == Min2(Max2(e, b1), Len(s))
    IN  IF e1 > b1 THEN Cut(s, b1, e1) ELSE <<>>
Ins(s, i, t) == Cut(s, 0, i) \o t \o Cut(s, i, Len(s))
Del(s, i, n) == Cut(s, 0, i) \o Cut(s, Min2(i + n, Len(s)), Len(s))
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

\* t stands at position i of s
At(s, i, t) == i >= 0 /\ i + Len(t) <= Len(s) /\ \A k \in 1..Len(t) : s[i + k] = t[k]

LowerC(c) == IF c \in 65..90 \/ c \in {196, 214, 220} THEN c + 32 ELSE c
UpperC(c) == IF c \in 97..122 \/ c \in {228, 246, 252} THEN c - 32 ELSE c
Lower(s) == [k \in 1..Len(s) |-> LowerC(s[k])]
Upper(s) == [k \in 1..Len(s) |-> UpperC(s[k])]

IsDigit(c) == c \in 48..57
\* letters of ASCII and Latin-1: 215 and 247 are the signs for multiplication and division
IsUpper(c) == c \in 65..90 \/ c \in (192..222) \ {215}
IsLower(c) == c \in 97..122 \/ c \in (223..255) \ {247}
IsWhite(c) == c \in {32, 13, 10, 9, 8, 12}

\* what a character says about itself: white, digit, letter, upper case, lower case, value as a digit, in lower and in upper case
CharInfo(c) == LET b(x) == IF x THEN 1 ELSE 0 IN
    <<b(IsWhite(c)), b(IsDigit(c)), b(IsUpper(c) \/ IsLower(c)), b(IsUpper(c)), b(IsLower(c)),
      IF IsDigit(c) THEN c - 48 ELSE -1, LowerC(c), UpperC(c)>>

\* the smallest / largest position with At(...), -1 if there is none. The recursions below take steps of Far
\* positions where they can: texts may be long.
Far == 256
RECURSIVE FirstAt(_, _, _)
FirstAt(s, t, i) ==
    IF i + Len(t) > Len(s) THEN -1
    ELSE IF \A k \in i..(i + Far - 1) : ~At(s, k, t) THEN FirstAt(s, t, i + Far)
    ELSE CHOOSE k \in i..(i + Far - 1) : At(s, k, t) /\ \A j \in i..(k - 1) : ~At(s, j, t)
RECURSIVE LastAt(_, _, _)
LastAt(s, t, i) ==
    IF i < 0 THEN -1
    ELSE IF \A k \in (i - Far + 1)..i : ~At(s, k, t) THEN LastAt(s, t, i - Far)
    ELSE CHOOSE k \in (i - Far + 1)..i : At(s, k, t) /\ \A j \in (k + 1)..i : ~At(s, j, t)

RECURSIVE LeadWhite(_, _)
LeadWhite(s, i) ==
    IF i + Far <= Len(s) /\ \A k \in (i + 1)..(i + Far) : IsWhite(s[k]) THEN LeadWhite(s, i + Far)
    ELSE IF i < Len(s) /\ IsWhite(s[i + 1]) THEN LeadWhite(s, i + 1) ELSE i
RECURSIVE TrailWhite(_, _)
TrailWhite(s, e) ==
    IF e >= Far /\ \A k \in (e - Far + 1)..e : IsWhite(s[k]) THEN TrailWhite(s, e - Far)
    ELSE IF e > 0 /\ IsWhite(s[e]) THEN TrailWhite(s, e - 1) ELSE e
Trim(s) == LET b == LeadWhite(s, 0) e == TrailWhite(s, Len(s)) IN IF e <= b THEN <<>> ELSE Cut(s, b, e)

ReplC(s, a, b) == [k \in 1..Len(s) |-> IF s[k] = a THEN b ELSE s[k]]
\* every occurrence, from left to right, not overlapping
RECURSIVE ReplFrom(_, _, _, _)
ReplFrom(s, a, b, i) ==
    LET p == FirstAt(s, a, i)
    IN  IF p < 0 THEN Cut(s, i, Len(s)) ELSE Cut(s, i, p) \o b \o ReplFrom(s, a, b, p + Len(a))
ReplS(s, a, b) == IF a = <<>> THEN s ELSE ReplFrom(s, a, b, 0)

CountC(s, c) == Cardinality({k \in 1..Len(s) : s[k] = c})

\* by code units; a proper prefix comes first
RECURSIVE Cmp(_, _, _)
Cmp(s, t, i) ==
    IF i > Len(s) THEN IF i > Len(t) THEN 0 ELSE -1
    ELSE IF i > Len(t) THEN 1
    ELSE IF i + Far <= Min2(Len(s), Len(t)) /\ SubSeq(s, i, i + Far) = SubSeq(t, i, i + Far) THEN Cmp(s, t, i + Far + 1)
    ELSE IF s[i] < t[i] THEN -1 ELSE IF s[i] > t[i] THEN 1 ELSE Cmp(s, t, i + 1)
Compare(s, t) == Cmp(s, t, 1)

\* Natural order: a run of digits counts as one number, however long; against a character it is its value that counts.
RECURSIVE DigitEnd(_, _)
DigitEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitEnd(s, i + 1) ELSE i
RECURSIVE NoZeros(_)
NoZeros(d) == IF d # <<>> /\ Head(d) = 48 THEN NoZeros(Tail(d)) ELSE d
RECURSIVE Value(_, _, _)
Value(d, i, n) == IF i > Len(d) THEN n ELSE Value(d, i + 1, 10 * n + d[i] - 48)
RECURSIVE Units(_, _)
Units(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF IsDigit(s[i]) THEN LET e == DigitEnd(s, i) IN <<[num |-> TRUE, d |-> NoZeros(SubSeq(s, i, e - 1))]>> \o Units(s, e)
    ELSE <<[num |-> FALSE, d |-> <<s[i]>>]>> \o Units(s, i + 1)
\* no character has a code of more than five digits
UnitValue(u) == IF ~u.num THEN u.d[1] ELSE IF Len(u.d) > 6 THEN 1000000 ELSE Value(u.d, 1, 0)
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
CmpUnit(u, v) ==
    IF u.num /\ v.num /\ Len(u.d) = Len(v.d) THEN Cmp(u.d, v.d, 1)
    ELSE IF u.num /\ v.num THEN Sign(Len(u.d) - Len(v.d))
    ELSE Sign(UnitValue(u) - UnitValue(v))
RECURSIVE CmpUnits(_, _, _)
CmpUnits(s, t, i) ==
    IF i > Len(s) THEN IF i > Len(t) THEN 0 ELSE -1
    ELSE IF i > Len(t) THEN 1
    ELSE LET c == CmpUnit(s[i], t[i]) IN IF c # 0 THEN c ELSE CmpUnits(s, t, i + 1)
\* documented: only the first 256 characters count
Front(s) == IF Len(s) > 256 THEN SubSeq(s, 1, 256) ELSE s
CompareNatural(s, t) == CmpUnits(Units(Front(s), 1), Units(Front(t), 1), 1)
=============================================================================
