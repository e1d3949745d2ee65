------------------------------- MODULE Streams -------------------------------
\* Byte streams: files on a disk and streams over memory. A stream s is a record
\* [k: "none", "file" or "mem"; p: which file; mode: "" while closed, "r", "w" or "rw"; pos; last: what a file stream did last
\*  ("", "read", "write"), because C streams want a seek between reading and writing; mem: the bytes].
EXTENDS Integers, Sequences
Closed(p) == [k |-> "file", p |-> p, mode |-> "", pos |-> 0, last |-> "", mem |-> <<>>]
None == [k |-> "none", p |-> 0, mode |-> "", pos |-> 0, last |-> "", mem |-> <<>>]
Mem(b) == [k |-> "mem", p |-> 0, mode |-> "rw", pos |-> 0, last |-> "", mem |-> b]
\* disk[p] is <<>> if there is no file, else <<bytes>>
Data(disk, s) == IF s.k = "mem" THEN s.mem ELSE disk[s.p][1]
Min(a, b) == IF a < b THEN a ELSE b
Max0(a) == IF a < 0 THEN 0 ELSE a
Zeros(n) == [k \in 1..Max0(n) |-> 0]
CanOpen(disk, s, mode) == s.k = "mem" \/ mode = "w" \/ disk[s.p] # <<>>
\* bytes a read of n gives
Got(disk, s, n) == LET d == Data(disk, s) IN
    IF s.mode = "w" THEN <<>> ELSE SubSeq(d, s.pos + 1, Min(Len(d), s.pos + n))
\* bytes of b that can be written: memory does not grow
Room(s, b) == IF s.mode = "r" THEN 0 ELSE IF s.k = "mem" THEN Min(Len(b), Len(s.mem) - s.pos) ELSE Len(b)
Put(d, pos, b) == IF b = <<>> THEN d
                  ELSE SubSeq(d, 1, Min(pos, Len(d))) \o Zeros(pos - Len(d)) \o b \o SubSeq(d, pos + Len(b) + 1, Len(d))
\* positions a memory stream accepts; a file refuses only negative ones
Reaches(s, pos) == pos >= 0 /\ (s.k = "file" \/ pos <= Len(s.mem))
=============================================================================
