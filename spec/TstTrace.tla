------------------------------ MODULE TstTrace ------------------------------
EXTENDS TraceLib
\* one: the number of the single test that is asked for, or -1; odd: was it no number; tests: those added
VARIABLES one, odd, tests, l
T == INSTANCE Tst
Init == one = -1 /\ odd = FALSE /\ tests = <<>> /\ l = 1
RECURSIVE Num(_, _)
Num(t, k) == IF k = 0 THEN 0 ELSE 10 * Num(t, k - 1) + t[k] - 48
\* no number: all of them
Single(a) == IF a = <<>> THEN -1 ELSE IF \E k \in 1..Len(a) : a[k] \notin 48..57 THEN -1 ELSE Num(a, Len(a))
Step(e) ==
    LET a == e.a IN
    CASE e.op = "new" -> one' = Single(a[1]) /\ odd' = (a[1] # <<>> /\ \E k \in 1..Len(a[1]) : a[1][k] \notin 48..57) /\ tests' = <<>> /\ e.r = <<0>>
      [] e.op = "add" -> tests' = Append(tests, <<a[1], a[2]>>) /\ UNCHANGED <<one, odd>>
      [] e.op = "none" -> tests' = Append(tests, <<>>) /\ UNCHANGED <<one, odd>>
      [] e.op = "name" -> tests' = [tests EXCEPT ![a[1]][1] = a[2]] /\ UNCHANGED <<one, odd>> /\ e.r = <<a[2]>>
      [] e.op = "run" -> /\ UNCHANGED <<one, odd, tests>>
                         /\ LET n == T!Count(tests, one) f == T!Errors(tests, one) IN e.r[1] = <<f, n, f, 0, 0>>
                         /\ LET ran == T!Ran(tests, one) IN e.r[2] = [k \in 1..Len(ran) |-> T!Counting(T!Reached(ran[k][2]))]
                         /\ T!Written(e.r[3], tests, one, odd)
Next == l <= Len(Trace) /\ Trace[l].x = 0 /\ Step(Trace[l]) /\ l' = l + 1
Ascii(t) == \A k \in 1..Len(t) : t[k] \in 32..126
Legal(e) ==
    CASE e.op = "new" -> Len(e.a[1]) < 9
      [] e.op = "add" -> Ascii(e.a[1]) /\ \A k \in 1..Len(e.a[2]) : LET s == e.a[2][k] IN T!Told(s) /\ Ascii(s[4]) /\ (s[1] = "ui" => s[3][1] # 45)
      [] e.op = "name" -> e.a[1] \in 1..Len(tests) /\ tests[e.a[1]] # <<>> /\ Ascii(e.a[2])
      [] OTHER -> TRUE
Mem == (l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)) /\ Remember(<<one, odd, tests>>)
=============================================================================
