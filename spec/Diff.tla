-------------------------------- MODULE Diff --------------------------------
\* Two sequences of objects; an object is <<number, value>>, objects with the same value are equal. A change is <<"A", object>>,
\* <<"D", object>> or <<"M", object, object>>.
EXTENDS Integers, Sequences, FiniteSets
Min(a, b) == IF a < b THEN a ELSE b
Eq(x, y) == x[2] = y[2]
\* row[j + 1]: the least number of changes from the first i objects of u to the first j of v
RECURSIVE RowFrom(_, _, _, _, _)
RowFrom(prev, x, v, j, row) ==
    IF j > Len(v) THEN row
    ELSE \* forced: the row so far is a value, not a recipe
         LET c == IF Eq(x, v[j]) THEN prev[j] ELSE 1 + Min(prev[j], Min(prev[j + 1], row[j]))
         IN  RowFrom(prev, x, v, j + 1, [k \in 1..(j + 1) |-> IF k <= j THEN row[k] ELSE c])
RECURSIVE Rows(_, _, _, _)
Rows(u, v, i, prev) == IF i > Len(u) THEN prev[Len(v) + 1] ELSE Rows(u, v, i + 1, RowFrom(prev, u[i], v, 1, <<i>>))
Distance(u, v) == Rows(u, v, 1, [j \in 1..(Len(v) + 1) |-> j - 1])
\* places <<i, j>> reached after the script: i objects of u and j of v are dealt with
RECURSIVE Same(_, _, _)
Same(u, v, S) ==
    LET more == {<<p[1] + 1, p[2] + 1>> : p \in {q \in S : q[1] < Len(u) /\ q[2] < Len(v) /\ Eq(u[q[1] + 1], v[q[2] + 1])}} \ S
    IN  IF more = {} THEN S ELSE Same(u, v, S \cup more)
One(u, v, S, c) ==
    CASE c[1] = "A" -> {<<p[1], p[2] + 1>> : p \in {q \in S : q[2] < Len(v) /\ v[q[2] + 1] = c[2]}}
      [] c[1] = "D" -> {<<p[1] + 1, p[2]>> : p \in {q \in S : q[1] < Len(u) /\ u[q[1] + 1] = c[2]}}
      [] c[1] = "M" -> {<<p[1] + 1, p[2] + 1>> : p \in {q \in S : q[1] < Len(u) /\ q[2] < Len(v) /\ u[q[1] + 1] = c[2] /\ v[q[2] + 1] = c[3]}}
      [] OTHER -> {}
RECURSIVE Reach(_, _, _, _, _)
Reach(u, v, S, script, i) == IF i > Len(script) THEN S ELSE Reach(u, v, Same(u, v, One(u, v, S, script[i])), script, i + 1)
Explains(u, v, script) == <<Len(u), Len(v)>> \in Reach(u, v, Same(u, v, {<<0, 0>>}), script, 1)
=============================================================================
