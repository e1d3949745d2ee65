------------------------------ MODULE Notation ------------------------------
\* Notations of bytes and numbers: Base64, CRC-16, hexadecimal, Roman and letter numerals. 64-bit integers are lists of
\* sixteen hexadecimal digits in two's complement, most significant first.
EXTENDS Integers, Sequences, Bitwise, SequencesExt

\* ---- Base64. The 64 letters by their place
Letter(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 97 + v - 26 ELSE IF v < 62 THEN 48 + v - 52 ELSE IF v = 62 THEN 43 ELSE 47
IsLetter(c) == c \in 65..90 \cup 97..122 \cup 48..57 \cup {43, 47}
Place(c) == CHOOSE v \in 0..63 : Letter(v) = c
Pad == 61
\* Three bytes are four places
Enc64(b) ==
    LET n == Len(b)
        At(i) == IF i <= n THEN b[i] ELSE 0
        Quad(k) == LET w == (At(3 * k + 1) * 256 + At(3 * k + 2)) * 256 + At(3 * k + 3)
                   IN  <<w \div 262144, (w \div 4096) % 64, (w \div 64) % 64, w % 64>>
    IN  [i \in 1..(4 * ((n + 2) \div 3)) |->
            LET k == (i - 1) \div 4
                j == (i - 1) % 4
            IN  IF 3 * k + j > n THEN Pad ELSE Letter(Quad(k)[j + 1])]
\* A text is letters, possibly with at most two signs filling up the last four
Good64(t) ==
    LET L == {i \in 1..Len(t) : ~IsLetter(t[i])} IN
    \/ L = {}
    \/ /\ Len(t) % 4 = 0 /\ \A i \in L : t[i] = Pad /\ i > Len(t) - 2
       /\ (Len(t) - 1 \in L => Len(t) \in L)
\* The whole bytes the letters describe; a text may end early
Dec64(t) ==
    LET n == Len(SelectSeq(t, IsLetter))
        V(i) == Place(t[i])
    IN  [i \in 1..((n * 3) \div 4) |->
            LET k == (i - 1) \div 3
                j == (i - 1) % 3
            IN  IF j = 0 THEN V(4 * k + 1) * 4 + V(4 * k + 2) \div 16
                ELSE IF j = 1 THEN (V(4 * k + 2) % 16) * 16 + V(4 * k + 3) \div 4
                ELSE (V(4 * k + 3) % 4) * 64 + V(4 * k + 4)]

\* ---- CRC-16, bit by bit, least significant bit first, polynomial x^16 + x^15 + x^2 + 1
RECURSIVE Shift8(_, _)
Shift8(c, n) == IF n = 0 THEN c
                ELSE Shift8(IF c % 2 = 1 THEN (c \div 2) ^^ 40961 ELSE c \div 2, n - 1)
Crc16(c, b) == FoldLeft(LAMBDA x, y : Shift8(x ^^ y, 8), c, b)

\* ---- 64-bit integers
Zeros(n) == [k \in 1..n |-> 0]
RECURSIVE MulAdd(_, _, _)
\* h * m + c for a list of hexadecimal digits, without the digits beyond its length
MulAdd(h, m, c) == IF h = <<>> THEN <<>>
    ELSE LET n == Len(h)
             v == h[n] * m + c
         IN  Append(MulAdd(SubSeq(h, 1, n - 1), m, v \div 16), v % 16)
RECURSIVE Horner(_, _, _)
Horner(h, ds, m) == IF ds = <<>> THEN h ELSE Horner(MulAdd(h, m, Head(ds)), Tail(ds), m)
Value(ds, m) == Horner(Zeros(16), ds, m)
Neg(h) == MulAdd([k \in 1..16 |-> 15 - h[k]], 1, 1)
\* A number given as sign and decimal digits
Num(neg, ds) == IF neg = 1 THEN Neg(Value(ds, 10)) ELSE Value(ds, 10)

HexChar(v) == IF v < 10 THEN 48 + v ELSE 65 + v - 10
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
IsHex(c) == c \in 48..57 \cup 65..70 \cup 97..102
RECURSIVE Strip(_)
Strip(h) == IF Len(h) > 1 /\ h[1] = 0 THEN Strip(Tail(h)) ELSE h
Hex(h) == LET s == Strip(h) IN [k \in 1..Len(s) |-> HexChar(s[k])]
FromHex(t) ==
    LET p == Zeros(16) \o [k \in 1..Len(t) |-> HexVal(t[k])]
    IN  SubSeq(p, Len(p) - 15, Len(p))

\* ---- numerals
RECURSIVE Rep(_, _)
Rep(c, n) == IF n = 0 THEN <<>> ELSE <<c>> \o Rep(c, n - 1)
\* a decimal digit d with the signs for one, five and ten
Roman1(d, i, v, x) ==
    CASE d <= 3 -> Rep(i, d)
      [] d = 4 -> <<i, v>>
      [] d = 9 -> <<i, x>>
      [] OTHER -> <<v>> \o Rep(i, d - 5)
Roman(n) == Rep(77, n \div 1000) \o Roman1((n \div 100) % 10, 67, 68, 77) \o Roman1((n \div 10) % 10, 88, 76, 67)
            \o Roman1(n % 10, 73, 86, 88)
\* what a Roman numeral denotes: a sign before a greater one counts negative
Worth(c) == CASE c = 73 -> 1 [] c = 86 -> 5 [] c = 88 -> 10 [] c = 76 -> 50 [] c = 67 -> 100 [] c = 68 -> 500 [] c = 77 -> 1000
RECURSIVE RomanValue(_)
RomanValue(t) == IF t = <<>> THEN 0
    ELSE (IF Len(t) > 1 /\ Worth(t[2]) > Worth(t[1]) THEN -Worth(t[1]) ELSE Worth(t[1])) + RomanValue(Tail(t))
\* A, B ... Z, AA, AB ...: the letters are digits 1 to 26
IsLatin(t) == t # <<>> /\ \A k \in 1..Len(t) : t[k] \in 65..90
LatinValue(t) == Value([k \in 1..Len(t) |-> t[k] - 64], 26)
=============================================================================
