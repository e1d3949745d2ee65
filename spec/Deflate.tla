------------------------------ MODULE Deflate -------------------------------
\* The compressed data format (RFC 1950, RFC 1951) as a machine that writes a stream: every operation adds
\* bits to the stream and says which bytes a reader has to produce from them.
\*   by    complete bytes of the stream      pend  bits of the byte not complete yet
\*   out   what a reader produces            mode  "block": between two blocks; "fix", "dyn": inside one; "end"
\*   ll,dl code lengths of a dynamic block   bad   the stream is not valid any more and must be refused
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

LenBase == <<3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258>>
LenBits == <<0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0>>
DistBase == <<1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073,
              4097, 6145, 8193, 12289, 16385, 24577>>
DistBits == <<0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13>>
Order == <<16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15>>

RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
Lsb(v, n) == [k \in 1..n |-> (v \div P2(k - 1)) % 2]
Msb(v, n) == [k \in 1..n |-> (v \div P2(n - k)) % 2]
Byte(s) == s[1] + 2 * s[2] + 4 * s[3] + 8 * s[4] + 16 * s[5] + 32 * s[6] + 64 * s[7] + 128 * s[8]

Empty == [by |-> <<>>, pend |-> <<>>, out |-> <<>>, mode |-> "block", ll |-> <<>>, dl |-> <<>>, last |-> 0, bad |-> FALSE]

Put(st, bits) ==
    LET all == st.pend \o bits
        n == Len(all) \div 8
    IN  [st EXCEPT !.by = @ \o [k \in 1..n |-> Byte(SubSeq(all, 8 * k - 7, 8 * k))], !.pend = SubSeq(all, 8 * n + 1, Len(all))]
Pad(st) == IF st.pend = <<>> THEN st
           ELSE [st EXCEPT !.by = Append(@, Byte(st.pend \o [k \in 1..(8 - Len(st.pend)) |-> 0])), !.pend = <<>>]

\* The canonical code of symbol s (counted from 0) for the given code lengths
Less(lens, n) == Cardinality({k \in 1..Len(lens) : lens[k] = n})
RECURSIVE FirstCode(_, _)
FirstCode(lens, n) == IF n <= 1 THEN 0 ELSE 2 * (FirstCode(lens, n - 1) + Less(lens, n - 1))
Code(lens, s) == LET n == lens[s + 1] IN
    Msb(FirstCode(lens, n) + Cardinality({k \in 1..s : lens[k] = n}), n)
HasCode(lens, s) == s < Len(lens) /\ lens[s + 1] > 0
\* A set of lengths is a prefix code that wastes no bits (or has at most one symbol, of one bit)
RECURSIVE Kraft(_, _)
Kraft(lens, k) == IF k > Len(lens) THEN 0 ELSE Kraft(lens, k + 1) + (IF lens[k] = 0 THEN 0 ELSE P2(15 - lens[k]))
Used(lens) == Cardinality({k \in 1..Len(lens) : lens[k] > 0})
Proper(lens, few) == Kraft(lens, 1) = 32768 \/ (few /\ Used(lens) = 0) \/ (few /\ Used(lens) = 1 /\ Kraft(lens, 1) = 16384)

FixCode(s) == IF s < 144 THEN Msb(48 + s, 8) ELSE IF s < 256 THEN Msb(400 + s - 144, 9)
              ELSE IF s < 280 THEN Msb(s - 256, 7) ELSE Msb(192 + s - 280, 8)
SymCode(st, s) == IF st.mode = "fix" THEN FixCode(s) ELSE Code(st.ll, s)
DistCode(st, d) == IF st.mode = "fix" THEN Msb(d, 5) ELSE Code(st.dl, d)

\* place of the largest base not above v
Slot(base, v) == CHOOSE k \in 1..Len(base) : base[k] <= v /\ (k = Len(base) \/ base[k + 1] > v)

RECURSIVE Repeat(_, _, _)
\* n more bytes, each a copy of the one d places before
Repeat(out, n, d) ==
    IF n <= d THEN out \o SubSeq(out, Len(out) - d + 1, Len(out) - d + n)
    ELSE Repeat(out \o SubSeq(out, Len(out) - d + 1, Len(out)), n - d, 2 * d)

\* ---- operations
Header(st, cmf, flg) == [Put(st, Lsb(cmf, 8) \o Lsb(flg, 8)) EXCEPT
    !.bad = ~(cmf % 16 = 8 /\ cmf \div 16 <= 7 /\ (256 * cmf + flg) % 31 = 0 /\ (flg \div 32) % 2 = 0)]
Open(st, final, typ) == [Put(st, <<final>> \o Lsb(typ, 2)) EXCEPT !.last = final]
Closed(st) == [st EXCEPT !.mode = IF st.last = 1 THEN "end" ELSE "block"]
\* a stored block; comp is added to the complement of the length (0 in a valid stream)
Stored(st, final, bytes, comp) ==
    LET n == Len(bytes)
        c == (65535 - n + comp) % 65536
        s == Pad(Open(st, final, 0))
        t == [s EXCEPT !.by = @ \o <<n % 256, n \div 256, c % 256, c \div 256>> \o bytes,
                       !.out = IF comp % 65536 = 0 THEN @ \o bytes ELSE @,
                       !.bad = @ \/ comp % 65536 # 0]
    IN  Closed(t)
Fix(st, final) == [Open(st, final, 1) EXCEPT !.mode = "fix"]
\* block type 3 does not exist
Type3(st, final) == [Open(st, final, 3) EXCEPT !.bad = TRUE, !.mode = "end"]

\* Lengths told by the code length symbols: <<n>> the length n, <<16, n>> the last one n times, <<17, n>>, <<18, n>> zeros
Tell(r, x) == r \o (IF Len(x) = 1 THEN x ELSE [k \in 1..x[2] |-> IF x[1] = 16 THEN r[Len(r)] ELSE 0])
Told(xs) == FoldLeft(Tell, <<>>, xs)
TellBits(cl, x) == Code(cl, x[1]) \o
    (IF Len(x) = 1 THEN <<>> ELSE IF x[1] = 16 THEN Lsb(x[2] - 3, 2) ELSE IF x[1] = 17 THEN Lsb(x[2] - 3, 3) ELSE Lsb(x[2] - 11, 7))
\* cl: lengths of the 19 code length symbols, of which hclen are written
Dyn(st, final, hlit, hdist, hclen, cl, xs) ==
    LET F(b, x) == b \o TellBits(cl, x)
        all == Told(xs)
        h == Put(Open(st, final, 2), Lsb(hlit - 257, 5) \o Lsb(hdist - 1, 5) \o Lsb(hclen - 4, 4))
        c == Put(h, FlattenSeq([k \in 1..hclen |-> Lsb(cl[Order[k] + 1], 3)]))
    IN  [Put(c, FoldLeft(F, <<>>, xs)) EXCEPT
            !.mode = "dyn", !.ll = SubSeq(all, 1, hlit), !.dl = SubSeq(all, hlit + 1, Len(all))]
DynOk(hlit, hdist, hclen, cl, xs) ==
    /\ hlit \in 257..286 /\ hdist \in 1..30 /\ hclen \in 4..19 /\ Len(cl) = 19
    /\ \A k \in (hclen + 1)..19 : cl[Order[k] + 1] = 0
    /\ Proper(cl, FALSE) /\ \A k \in 1..Len(xs) : HasCode(cl, xs[k][1])
    /\ xs[1][1] # 16 /\ \A k \in 1..Len(xs) : IF Len(xs[k]) = 1 THEN xs[k][1] < 16
                            ELSE xs[k][2] \in (CASE xs[k][1] = 16 -> 3..6 [] xs[k][1] = 17 -> 3..10 [] OTHER -> 11..138)
    /\ LET all == Told(xs) IN Len(all) = hlit + hdist /\ all[257] > 0
                              /\ Proper(SubSeq(all, 1, hlit), FALSE) /\ Proper(SubSeq(all, hlit + 1, Len(all)), TRUE)

Literal(st, c) == [Put(st, SymCode(st, c)) EXCEPT !.out = Append(@, c)]
Copy(st, n, d) ==
    LET a == Slot(LenBase, n)
        b == Slot(DistBase, d)
        s == Put(st, SymCode(st, 256 + a) \o Lsb(n - LenBase[a], LenBits[a]) \o DistCode(st, b - 1) \o Lsb(d - DistBase[b], DistBits[b]))
    IN  IF d > Len(st.out) THEN [s EXCEPT !.bad = TRUE] ELSE [s EXCEPT !.out = Repeat(@, n, d)]
\* a symbol that stands for nothing: 286, 287, or distance 30, 31 (fixed codes only)
Nonsense(st, s) ==
    [Put(st, IF s >= 286 THEN FixCode(s) ELSE FixCode(257) \o Msb(s, 5)) EXCEPT !.bad = TRUE]
Token(st, x) ==
    IF st.bad THEN st
    ELSE IF Len(x) = 1 THEN Literal(st, x[1])
    ELSE IF x[1] < 0 THEN Nonsense(st, x[2])
    ELSE Copy(st, x[1], x[2])
TokenOk(st, x) ==
    IF Len(x) = 1 THEN x[1] \in 0..255 /\ (st.mode = "fix" \/ HasCode(st.ll, x[1]))
    ELSE IF x[1] < 0 THEN st.mode = "fix" /\ x[2] \in {30, 31, 286, 287}
    ELSE x[1] \in 3..258 /\ x[2] \in 1..32768 /\ (st.mode = "fix" \/
            (HasCode(st.ll, 256 + Slot(LenBase, x[1])) /\ HasCode(st.dl, Slot(DistBase, x[2]) - 1)))
Tokens(st, xs) == FoldLeft(Token, st, xs)
Close(st) == Closed(IF st.bad THEN st ELSE Put(st, SymCode(st, 256)))

\* checksum behind the stream
Adler(out) == LET F(a, c) == LET x == (a[1] + c) % 65521 IN <<x, (a[2] + x) % 65521>> IN FoldLeft(F, <<1, 0>>, out)
Trailer(out) == LET a == Adler(out) IN <<a[2] \div 256, a[2] % 256, a[1] \div 256, a[1] % 256>>

\* one operation, as in the scripts
Apply(st, o) ==
    CASE o[1] = "header" -> Header(st, o[2], o[3])
      [] o[1] = "stored" -> Stored(st, o[2], o[3], o[4])
      [] o[1] = "fix"    -> Fix(st, o[2])
      [] o[1] = "dyn"    -> Dyn(st, o[2], o[3], o[4], o[5], o[6], o[7])
      [] o[1] = "type3"  -> Type3(st, o[2])
      [] o[1] = "tokens" -> Tokens(st, o[2])
      [] o[1] = "close"  -> Close(st)
Legal(st, o) ==
    CASE o[1] = "header" -> st = Empty
      [] o[1] \in {"stored", "type3", "fix"} -> st.mode = "block"
      [] o[1] = "dyn"    -> st.mode = "block" /\ DynOk(o[3], o[4], o[5], o[6], o[7])
      [] o[1] = "tokens" -> st.mode \in {"fix", "dyn"} /\ \A k \in 1..Len(o[2]) : TokenOk(st, o[2][k])
      [] o[1] = "close"  -> st.mode \in {"fix", "dyn"}
Stream(st) == Pad(st).by
Run(os) == FoldLeft(Apply, Empty, os)

\* ---- a reader, bit by bit, for streams of stored and fixed blocks: <<bytes produced>> or <<>> if refused
Bit(b, p) == (b[p \div 8 + 1] \div P2(p % 8)) % 2
Has(b, p, n) == p + n <= 8 * Len(b)
RECURSIVE Num(_, _, _), Rev(_, _, _)
Num(b, p, n) == IF n = 0 THEN 0 ELSE Bit(b, p) + 2 * Num(b, p + 1, n - 1)
Rev(b, p, n) == IF n = 0 THEN 0 ELSE 2 * Rev(b, p, n - 1) + Bit(b, p + n - 1)
\* symbol and number of bits at p, <<>> if there is none
FixSym(b, p) ==
    IF Has(b, p, 7) /\ Rev(b, p, 7) <= 23 THEN <<256 + Rev(b, p, 7), 7>>
    ELSE IF Has(b, p, 8) /\ Rev(b, p, 8) \in 48..191 THEN <<Rev(b, p, 8) - 48, 8>>
    ELSE IF Has(b, p, 8) /\ Rev(b, p, 8) \in 192..199 THEN <<Rev(b, p, 8) - 192 + 280, 8>>
    ELSE IF Has(b, p, 9) /\ Rev(b, p, 9) >= 400 THEN <<Rev(b, p, 9) - 256, 9>>
    ELSE <<>>
RECURSIVE Read(_, _, _), ReadFix(_, _, _, _)
Read(b, p, out) ==
    IF ~Has(b, p, 3) THEN <<>>
    ELSE LET last == Bit(b, p)  typ == Num(b, p + 1, 2) IN
    CASE typ = 0 -> LET q == ((p + 10) \div 8) IN
                    IF q + 4 > Len(b) THEN <<>>
                    ELSE LET n == b[q + 1] + 256 * b[q + 2] IN
                         IF n + b[q + 3] + 256 * b[q + 4] # 65535 \/ q + 4 + n > Len(b) THEN <<>>
                         ELSE LET o == out \o SubSeq(b, q + 5, q + 4 + n) IN
                              IF last = 1 THEN <<o>> ELSE Read(b, 8 * (q + 4 + n), o)
      [] typ = 1 -> ReadFix(b, p + 3, out, last)
      [] OTHER -> <<>>
ReadFix(b, p, out, last) ==
    LET s == FixSym(b, p) IN
    IF s = <<>> THEN <<>>
    ELSE IF s[1] < 256 THEN ReadFix(b, p + s[2], Append(out, s[1]), last)
    ELSE IF s[1] = 256 THEN IF last = 1 THEN <<out>> ELSE Read(b, p + s[2], out)
    ELSE IF s[1] > 285 THEN <<>>
    ELSE LET a == s[1] - 256
             q == p + s[2]
             r == q + LenBits[a]
         IN  IF ~Has(b, r, 5) \/ Rev(b, r, 5) > 29 THEN <<>>
             ELSE LET k == Rev(b, r, 5) + 1 IN
                  IF ~Has(b, r + 5, DistBits[k]) THEN <<>>
                  ELSE LET n == LenBase[a] + Num(b, q, LenBits[a])
                           d == DistBase[k] + Num(b, r + 5, DistBits[k])
                       IN  IF d > Len(out) THEN <<>> ELSE ReadFix(b, r + 5 + DistBits[k], Repeat(out, n, d), last)
=============================================================================
