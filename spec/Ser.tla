--------------------------------- MODULE Ser --------------------------------
\* Numbers in a buffer. A number is the sequence of its bytes, the most significant first.
EXTENDS Integers, Sequences
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Size(k) == CASE k \in {"BE16", "LE16", "LEU16", "BEU16"} -> 2 [] k \in {"BE24", "LE24"} -> 3
             [] k \in {"BE32", "BEU32", "LE32", "LEU32", "LEF"} -> 4 [] OTHER -> 8
Big(k) == k \in {"BE16", "BEU16", "BE24", "BE32", "BEU32", "BE64"}
Signed(k) == k \in {"BE16", "BE32", "BE64", "LE16", "LE32", "LE64"}
Store(b, k, at, v) ==
    LET w == IF Big(k) THEN v ELSE Rev(v)
    IN  [i \in 1..Len(b) |-> IF i > at /\ i <= at + Size(k) THEN w[i - at] ELSE b[i]]
Fetch(b, k, at) == LET w == SubSeq(b, at + 1, at + Size(k)) IN IF Big(k) THEN w ELSE Rev(w)
\* the value as a 64-bit number
Wide(k, v) == [i \in 1..(8 - Len(v)) |-> IF Signed(k) /\ v[1] > 127 THEN 255 ELSE 0] \o v
Inside(b, k, at) == at >= 0 /\ at + Size(k) <= Len(b)
=============================================================================
