--------------------------------- MODULE Enc --------------------------------
\* Character sets: texts are sequences of UTF-16 code units, encoded texts sequences of bytes.
EXTENDS Integers, Sequences, FiniteSets, Codepages

\* ---- UTF-8
Hi(u) == u \in 55296..56319
Lo(u) == u \in 56320..57343
Code(h, l) == 65536 + (h - 55296) * 1024 + (l - 56320)
Utf8Char(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Utf8Enc(_, _)
Utf8Enc(t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE IF i < Len(t) /\ Hi(t[i]) /\ Lo(t[i + 1]) THEN Utf8Char(Code(t[i], t[i + 1])) \o Utf8Enc(t, i + 2)
    ELSE Utf8Char(t[i]) \o Utf8Enc(t, i + 1)
Units(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
Cont(b, i, n) == i + n <= Len(b) /\ \A k \in 1..n : b[i + k] \in 128..191
\* number of bytes of the character at i; a byte that does not start a complete one counts by itself
Size(b, i) ==
    IF b[i] \in 192..223 /\ Cont(b, i, 1) THEN 2
    ELSE IF b[i] \in 224..239 /\ Cont(b, i, 2) THEN 3
    ELSE IF b[i] \in 240..247 /\ Cont(b, i, 3)
            /\ (b[i] - 240) * 4 + (b[i + 1] - 128) \div 16 \in 1..16 THEN 4
    ELSE 1
Value(b, i) == CASE Size(b, i) = 1 -> b[i]
                 [] Size(b, i) = 2 -> (b[i] - 192) * 64 + b[i + 1] - 128
                 [] Size(b, i) = 3 -> (b[i] - 224) * 4096 + (b[i + 1] - 128) * 64 + b[i + 2] - 128
                 [] OTHER -> (b[i] - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + b[i + 3] - 128
RECURSIVE Utf8Dec(_, _)
Utf8Dec(b, i) == IF i > Len(b) THEN <<>> ELSE Units(Value(b, i)) \o Utf8Dec(b, i + Size(b, i))
Starts(b, p) == Len(b) >= Len(p) /\ SubSeq(b, 1, Len(p)) = p
Bom8 == <<239, 187, 191>>
BomBE == <<254, 255>>
BomLE == <<255, 254>>
\* a byte array is read up to its first zero byte
RECURSIVE UpTo0(_)
UpTo0(b) == IF b = <<>> \/ b[1] = 0 THEN <<>> ELSE <<b[1]>> \o UpTo0(Tail(b))

\* ---- UTF-16
Flat(ps) == [k \in 1..(2 * Len(ps)) |-> ps[(k + 1) \div 2][2 - (k % 2)]]
Utf16Enc(t, be) == Flat([k \in 1..Len(t) |-> IF be THEN <<t[k] \div 256, t[k] % 256>> ELSE <<t[k] % 256, t[k] \div 256>>])
At(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
Utf16Units(b, be) == [k \in 1..((Len(b) + 1) \div 2) |->
    LET x == b[2 * k - 1]  y == At(b, 2 * k) IN IF be THEN x * 256 + y ELSE y * 256 + x]
Utf16Dec(b, be) == UpTo0(Utf16Units(IF Starts(b, IF be THEN BomBE ELSE BomLE) THEN SubSeq(b, 3, Len(b)) ELSE b, be))

\* ---- single bytes
Map(t, F(_)) == [k \in 1..Len(t) |-> F(t[k])]
Index(tab, c) == (CHOOSE i \in 1..256 : tab[i] = c) - 1
Table(cs) == IF cs = "Windows-1252" THEN Windows1252 ELSE MacRoman

Sets == {"UTF-8", "UTF-16LE", "UTF-16BE", "Windows-1252", "MacRoman", "RAW", "ASCII"}
\* texts a character set can express
Expressible(cs, t) ==
    CASE cs \in {"Windows-1252", "MacRoman"} -> \A k \in 1..Len(t) : t[k] \in {Table(cs)[i] : i \in 1..256}
      [] cs \in {"RAW", "ASCII"} -> \A k \in 1..Len(t) : t[k] < 256
      [] OTHER -> TRUE
Enc(cs, t) ==
    CASE cs = "UTF-8" -> Utf8Enc(t, 1)
      [] cs = "UTF-16LE" -> Utf16Enc(t, FALSE)
      [] cs = "UTF-16BE" -> Utf16Enc(t, TRUE)
      [] cs \in {"Windows-1252", "MacRoman"} -> LET F(c) == Index(Table(cs), c) IN Map(t, F)
      [] OTHER -> LET F(c) == c % 256 IN Map(t, F)
\* bytes announcing another encoding are refused
Refused(cs, b) ==
    CASE cs = "UTF-8" -> Starts(b, BomBE) \/ Starts(b, BomLE)
      [] cs \in {"UTF-16LE", "UTF-16BE"} -> Starts(b, Bom8)
      [] OTHER -> FALSE
\* bytes this document says nothing about: undefined places of the chart, the other byte order's mark
Decodable(cs, b) ==
    CASE cs = "Windows-1252" -> \A k \in 1..Len(b) : Windows1252[b[k] + 1] >= 0
      [] cs = "UTF-16LE" -> ~Starts(b, BomBE)
      [] cs = "UTF-16BE" -> ~Starts(b, BomLE)
      [] OTHER -> TRUE
Dec(cs, b) ==
    CASE cs = "UTF-8" -> Utf8Dec(UpTo0(IF Starts(b, Bom8) THEN SubSeq(b, 4, Len(b)) ELSE b), 1)
      [] cs = "UTF-16LE" -> Utf16Dec(b, FALSE)
      [] cs = "UTF-16BE" -> Utf16Dec(b, TRUE)
      [] cs \in {"Windows-1252", "MacRoman"} -> LET F(x) == Table(cs)[x + 1] IN Map(UpTo0(b), F)
      [] OTHER -> UpTo0(b)

\* ---- guessing
Zeros(b, par) == Cardinality({k \in 1..Len(b) : k % 2 = par /\ b[k] = 0})
Guess(b) ==
    LET f == SubSeq(b, 1, IF Len(b) < 4096 THEN Len(b) ELSE 4096)
        n == Len(f)
        be == Zeros(f, 1)  le == Zeros(f, 0)
        rest == IF \E k \in 1..Len(b) : b[k] > 127 THEN "UTF-8" ELSE "ASCII"
    IN  IF Starts(b, BomBE) THEN {"UTF-16BE"}
        ELSE IF Starts(b, BomLE) THEN {"UTF-16LE"}
        ELSE IF Starts(b, Bom8) THEN {"UTF-8"}
        ELSE IF 4 * be <= n /\ 4 * le <= n THEN {rest}
        ELSE IF n > 1 /\ n % 2 = 0 /\ 2 * be = n /\ le = 0 THEN {"UTF-16BE"}
        ELSE IF n > 1 /\ n % 2 = 0 /\ 2 * le = n /\ be = 0 THEN {"UTF-16LE"}
        ELSE {rest, "UTF-16BE", "UTF-16LE"}

\* ---- URL encoding, on the UTF-8 bytes
HexD(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE UrlBytes(_)
UrlBytes(b) ==
    IF b = <<>> THEN <<>>
    ELSE (IF b[1] = 32 THEN <<43>> ELSE IF b[1] \in {37, 43} \/ b[1] > 127 THEN <<37, HexD(b[1] \div 16), HexD(b[1] % 16)>>
          ELSE <<b[1]>>) \o UrlBytes(Tail(b))
UrlEnc(t) == UrlBytes(Utf8Enc(t, 1))
HexV(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
IsHex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
RECURSIVE UnUrl(_, _)
UnUrl(t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE IF t[i] = 43 THEN <<32>> \o UnUrl(t, i + 1)
    ELSE IF t[i] = 37 THEN <<HexV(t[i + 1]) * 16 + HexV(t[i + 2])>> \o UnUrl(t, i + 3)
    ELSE <<t[i]>> \o UnUrl(t, i + 1)
RECURSIVE UrlOk(_, _)
UrlOk(t, i) ==
    IF i > Len(t) THEN TRUE
    ELSE IF t[i] = 37 THEN i + 2 <= Len(t) /\ IsHex(t[i + 1]) /\ IsHex(t[i + 2]) /\ UrlOk(t, i + 3)
    ELSE t[i] < 128 /\ UrlOk(t, i + 1)
UrlDec(t) == Dec("UTF-8", UnUrl(t, 1))
UrlRefused(t) == Refused("UTF-8", UnUrl(t, 1))
=============================================================================
