-------------------------------- MODULE FmtFn -------------------------------
\* Numbers as texts and the insertion of arguments into a template. Numbers are a sign (0 or 1) and a list of
\* decimal digits without leading zeros, because they reach beyond the checker's integers.
EXTENDS Integers, Sequences

Pct == 37  Minus == 45  Zero == 48  Comma == 44  Dot == 46
IsDigit(c) == c \in 48..57
Text(ds) == [k \in 1..Len(ds) |-> ds[k] + 48]
Digits(t) == [k \in 1..Len(t) |-> t[k] - 48]
NumText(neg, ds) == (IF neg = 1 THEN <<Minus>> ELSE <<>>) \o Text(ds)

RECURSIVE Strip(_)
Strip(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN Strip(Tail(ds)) ELSE ds
\* The integer a text denotes, <<>> if it denotes none (at least one digit is assumed).
ParseInt(t) ==
    LET neg == t[1] = Minus
        d == IF neg THEN Tail(t) ELSE t
    IN  IF \E k \in 1..Len(d) : ~IsDigit(d[k]) THEN <<>>
        ELSE LET s == Strip(Digits(d)) IN <<IF neg /\ s # <<0>> THEN 1 ELSE 0, s>>

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<n>> ELSE Append(Dec(n \div 10), n % 10)
RECURSIVE PadL(_, _)
PadL(ds, n) == IF Len(ds) >= n THEN ds ELSE PadL(<<0>> \o ds, n)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE CutZ(_)
CutZ(ds) == IF Len(ds) > 1 /\ ds[Len(ds)] = 0 THEN CutZ(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds

\* (neg ? -1 : 1) * (w + f / 2^k) with p digits after the comma, rounded half away from zero; with cut
\* trailing zeros, and a fraction of zero altogether, are dropped.
DblText(neg, w, f, k, p, cut) ==
    LET q == (f * Pow(10, p + 1)) \div Pow(2, k)
        r == q \div 10 + (IF q % 10 >= 5 THEN 1 ELSE 0)
        up == r = Pow(10, p)
        a == IF up THEN 0 ELSE r
        before == Dec(IF up THEN w + 1 ELSE w)
        after == PadL(Dec(a), p)
    IN  NumText(neg, before) \o
        (IF cut THEN IF a = 0 THEN <<>> ELSE <<Comma>> \o Text(CutZ(after)) ELSE <<Comma>> \o Text(after))

\* A number of at most ten significant digits, d[1].d[2]d[3]... * 10^e, as text: positional when the exponent is in -4 .. 9,
\* otherwise with an exponent of at least two digits. d has no trailing zeros, and zero is <<0>> with e = 0.
Zeros(n) == [k \in 1..n |-> Zero]
RealText(neg, d, e) ==
    LET n == Len(d)
        t == Text(d)
        Pnt(u) == IF u = <<>> THEN <<>> ELSE <<Dot>> \o u
    IN  (IF neg = 1 THEN <<Minus>> ELSE <<>>) \o
        (IF e < -4 \/ e >= 10
         THEN <<t[1]>> \o Pnt(SubSeq(t, 2, n)) \o <<101, IF e < 0 THEN Minus ELSE 43>> \o Text(PadL(Dec(IF e < 0 THEN -e ELSE e), 2))
         ELSE IF e < 0 THEN <<Zero>> \o Pnt(Zeros(-e - 1) \o t)
         ELSE IF n <= e + 1 THEN t \o Zeros(e + 1 - n)
         ELSE SubSeq(t, 1, e + 1) \o Pnt(SubSeq(t, e + 2, n)))

\* Placeholders: positions of %d and %dd with their numbers
NumAt(s, i) == IF i + 2 <= Len(s) /\ IsDigit(s[i + 2]) THEN 10 * (s[i + 1] - 48) + s[i + 2] - 48 ELSE s[i + 1] - 48
Holders(s) == {i \in 1..(Len(s) - 1) : s[i] = Pct /\ IsDigit(s[i + 1])}
\* the placeholder of the lowest number, the first one of them
First(s) == LET h == Holders(s) IN
    CHOOSE i \in h : \A j \in h : NumAt(s, i) < NumAt(s, j) \/ (NumAt(s, i) = NumAt(s, j) /\ i <= j)
RECURSIVE Fill(_, _)
Fill(c, n) == IF n <= 0 THEN <<>> ELSE <<c>> \o Fill(c, n - 1)
Abs(n) == IF n < 0 THEN -n ELSE n
Padded(t, w, c) == IF w > 0 THEN Fill(c, w - Len(t)) \o t ELSE t \o Fill(c, -w - Len(t))
Arg(s, t, w, c) ==
    IF Holders(s) = {} THEN s
    ELSE LET i == First(s)
             n == IF NumAt(s, i) > 9 THEN 3 ELSE 2
         IN  SubSeq(s, 1, i - 1) \o Padded(t, w, c) \o SubSeq(s, i + n, Len(s))
\* templates in the documented form: numbers have no leading zero
Proper(s) == \A i \in Holders(s) : s[i + 1] # Zero

LowerC(c) == IF c \in 65..90 THEN c + 32 ELSE c
IsTrue(t) == [k \in 1..Len(t) |-> LowerC(t[k])] = <<116, 114, 117, 101>>
=============================================================================
