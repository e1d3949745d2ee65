-------------------------------- MODULE Zip --------------------------------
\* Archives. An archive file is a sequence of bytes; Parse says what it contains. An entry is a record
\* [name (bytes), size, csize, off, crc (two 16-bit halves)].
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, Bitwise

U16(b, i) == b[i + 1] + 256 * b[i + 2]
\* sizes beyond 2^30 do not occur in files the checker can hold
Huge == 1073741824
U32(b, i) == IF U16(b, i + 2) >= 16384 THEN Huge ELSE U16(b, i + 2) * 65536 + U16(b, i)
Sig(b, i, x, y) == b[i + 1] = 80 /\ b[i + 2] = 75 /\ b[i + 3] = x /\ b[i + 4] = y
Bytes(b, i, n) == SubSeq(b, i + 1, i + n)

\* ---- CRC-32, bit by bit, as two halves
RECURSIVE Shift(_, _, _)
Shift(h, l, n) ==
    IF n = 0 THEN <<h, l>>
    ELSE LET l2 == l \div 2 + (h % 2) * 32768
             h2 == h \div 2
         IN  IF l % 2 = 1 THEN Shift(h2 ^^ 60856, l2 ^^ 33568, n - 1) ELSE Shift(h2, l2, n - 1)
CrcTable == [k \in 0..255 |-> Shift(0, k, 8)]
Crc32(b) ==
    LET c == FoldLeft(LAMBDA x, y : LET t == CrcTable[(x[2] % 256) ^^ y] IN
                                    <<(x[1] \div 256) ^^ t[1], (x[2] \div 256 + (x[1] % 256) * 256) ^^ t[2]>>,
                      <<65535, 65535>>, b)
    IN  <<65535 - c[1], 65535 - c[2]>>

Bad == [ok |-> FALSE, entries |-> <<>>, comment |-> <<>>]
Record(b, i, nl) ==
    [name |-> Bytes(b, i + 46, nl), size |-> U32(b, i + 24), csize |-> U32(b, i + 20),
     off |-> U32(b, i + 42), crc |-> <<U16(b, i + 18), U16(b, i + 16)>>, signed |-> Sig(b, i, 1, 2)]
RecordLen(b, i) == 46 + U16(b, i + 28) + U16(b, i + 30) + U16(b, i + 32)
\* k records from position i of the directory which ends at e: <<whether they fit, the end, the records>>
Records(b, k, i, e) ==
    FoldLeft(LAMBDA s, j :
                IF ~s[1] THEN s
                ELSE IF s[2] + 46 > e THEN <<FALSE, 0, <<>>>>
                ELSE IF s[2] + RecordLen(b, s[2]) > e THEN <<FALSE, 0, <<>>>>
                ELSE <<TRUE, s[2] + RecordLen(b, s[2]), Append(s[3], Record(b, s[2], U16(b, s[2] + 28)))>>,
             <<TRUE, i, <<>>>>, [j \in 1..k |-> j])
At(b, e) ==
    LET dsz == U32(b, e + 12)
        doff == U32(b, e + 16)
        cl == U16(b, e + 20)
    IN  IF doff = Huge \/ dsz = Huge \/ doff + dsz > e \/ e + 22 + cl > Len(b) THEN Bad
        ELSE LET Made(r) == IF ~r[1] THEN Bad ELSE [ok |-> TRUE, entries |-> r[3], comment |-> Bytes(b, e + 22, cl)]
             IN  CHOOSE p \in {Made(r) : r \in {Records(b, U16(b, e + 10), doff, doff + dsz)}} : TRUE
\* The directory is found from its end record, which is the last one in the file
Ends(b) == {i \in 0..(Len(b) - 22) : b[i + 1] = 80 /\ Sig(b, i, 5, 6)}
Parse(b) ==
    IF b = <<>> THEN [ok |-> TRUE, entries |-> <<>>, comment |-> <<>>]
    ELSE CHOOSE p \in {IF E = {} THEN Bad ELSE CHOOSE q \in {At(b, e) : e \in {Max(E)}} : TRUE : E \in {Ends(b)}} : TRUE
\* Where the data of an entry begins; -1 if its local header is none or does not fit
DataAt(b, e) ==
    IF e.off = Huge \/ e.off + 30 > Len(b) \/ ~Sig(b, e.off, 3, 4) THEN -1
    ELSE LET p == e.off + 30 + U16(b, e.off + 26) + U16(b, e.off + 28)
         IN  IF e.csize = Huge \/ p + e.csize > Len(b) THEN -1 ELSE p
Method(b, e) == U16(b, e.off + 8)
Unreadable(b, e) ==
    \/ DataAt(b, e) = -1
    \/ Method(b, e) \notin {0, 8}
    \/ Method(b, e) = 0 /\ e.size # e.csize
\* the bytes of a stored entry
Stored(b, e) == Bytes(b, DataAt(b, e), e.size)
IsDir(name) == name # <<>> /\ name[Len(name)] = 47

\* ---- what a writer has to produce: every local header agrees with the directory, the entries do not overlap,
\* the sums are right
WellFormed(b) ==
    \E p \in {Parse(b)} :
    /\ p.ok
    /\ \A k \in 1..Len(p.entries) :
        \E e \in {p.entries[k]} :
        /\ e.signed /\ ~Unreadable(b, e) /\ Method(b, e) = 0
        /\ U16(b, e.off + 26) = Len(e.name) /\ Bytes(b, e.off + 30, Len(e.name)) = e.name
        /\ U32(b, e.off + 18) = e.csize /\ U32(b, e.off + 22) = e.size
        /\ <<U16(b, e.off + 16), U16(b, e.off + 14)>> = e.crc
        /\ Crc32(Stored(b, e)) = e.crc
        /\ k > 1 => LET f == p.entries[k - 1] IN e.off >= DataAt(b, f) + f.csize
ContentsOf(b, p) == [k \in 1..Len(p.entries) |-> <<p.entries[k].name, Stored(b, p.entries[k])>>]
Contents(b) == CHOOSE c \in {ContentsOf(b, p) : p \in {Parse(b)}} : TRUE

\* ---- one way to write: entries are pairs of name and data
L16(n) == <<n % 256, n \div 256>>
L32(n) == L16(n % 65536) \o L16(n \div 65536)
C32(c) == L16(c[2]) \o L16(c[1])
Zero(n) == [k \in 1..n |-> 0]
Local(e) == <<80, 75, 3, 4>> \o Zero(10) \o C32(Crc32(e[2])) \o L32(Len(e[2])) \o L32(Len(e[2])) \o L16(Len(e[1]))
            \o L16(0) \o e[1] \o e[2]
Central(e, off) == <<80, 75, 1, 2>> \o Zero(12) \o C32(Crc32(e[2])) \o L32(Len(e[2])) \o L32(Len(e[2])) \o L16(Len(e[1]))
            \o Zero(12) \o L32(off) \o e[1]
RECURSIVE Locals(_), Centrals(_, _)
Locals(es) == IF es = <<>> THEN <<>> ELSE Local(Head(es)) \o Locals(Tail(es))
Centrals(es, off) == IF es = <<>> THEN <<>> ELSE Central(Head(es), off) \o Centrals(Tail(es), off + Len(Local(Head(es))))
Write(es) ==
    LET l == Locals(es)
        c == Centrals(es, 0)
    IN  l \o c \o <<80, 75, 5, 6>> \o Zero(4) \o L16(Len(es)) \o L16(Len(es)) \o L32(Len(c)) \o L32(Len(l)) \o L16(0)
=============================================================================
