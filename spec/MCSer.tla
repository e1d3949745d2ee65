-------------------------------- MODULE MCSer -------------------------------
\* Numbers of every kind stored and read at every place of a small buffer.
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, N, Bytes, MaxSize
VARIABLES b, n, op
S == INSTANCE Ser
View == <<b, n>>
Puts == {"BE16", "BE24", "BE32", "BE64", "LE16", "LEU16", "LE24", "LE32", "LE64", "LED", "LEF"}
Gets == {"BE16", "BEU16", "BEU32", "BE32", "BE64", "LEU16", "LE16", "LEU32", "LE32", "LE64", "LED", "LEF"}
Start == [i \in 1..N |-> i]
Init == b = Start /\ n = 0 /\ op = <<"new", Start>>
Value(k, x, y) == [i \in 1..S!Size(k) |-> IF i = 1 THEN x ELSE IF i = S!Size(k) THEN y ELSE 16 * i + 7]
Next ==
    \/ n < MaxSize /\ n' = n + 1 /\ \E k \in Puts, at \in 0..(N - 2), x, y \in Bytes : S!Inside(b, k, at) /\ b' = S!Store(b, k, at, Value(k, x, y)) /\ op' = <<"put", k, at, Value(k, x, y)>>
    \/ UNCHANGED <<b, n>> /\ \E k \in Gets, at \in 0..(N - 2) : S!Inside(b, k, at) /\ op' = <<"get", k, at>>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
\* what was stored is what is read, and nothing else changed
PutGet == [][op'[1] = "put" => /\ S!Fetch(b', op'[2], op'[3]) = op'[4]
                               /\ \A i \in 1..N : (i <= op'[3] \/ i > op'[3] + S!Size(op'[2])) => b'[i] = b[i]]_<<b, n, op>>
\* the two orders mirror each other
Mirror == \A at \in 0..(N - 4) : S!Fetch(b, "BE32", at) = S!Fetch(S!Rev(b), "LE32", N - 4 - at)
=============================================================================
