--------------------------------- MODULE Tst --------------------------------
\* A run of tests: what is counted, what is written about it and what it returns. A test is <<>> (no test at all) or
\* <<name, assertions>>; an assertion is <<kind, actual, expected, message>>.
EXTENDS Integers, Sequences, SequencesExt
P == INSTANCE Prefs
A == INSTANCE App
Integral == {"ll", "li", "uu", "ui", "uj", "ii", "jj", "ij", "ji", "pp"}
Small(c) == IF c \in 65..90 THEN c + 32 ELSE c
SmallAll(t) == [k \in 1..Len(t) |-> Small(t[k])]
\* fractions: <<units, quarters of the resolution>>; none: not a number; <<1>>: infinite
Abs(n) == IF n < 0 THEN -n ELSE n
Diff(x, y) == IF x[1] = y[1] THEN Abs(x[2] - y[2]) ELSE 100
\* where the outcome is told at all
Told(s) == IF s[1] # "dd" THEN TRUE
           ELSE IF Len(s[2]) = 2 /\ Len(s[3]) = 2 THEN Diff(s[2], s[3]) # 4
           ELSE Len(s[2]) = 2 \/ Len(s[3]) = 2
Good(s) ==
    CASE s[1] \in Integral \cup {"ss"} -> s[2] = s[3]
      [] s[1] = "ic" -> SmallAll(s[2]) = SmallAll(s[3])
      [] s[1] = "dd" -> Len(s[2]) = 2 /\ Len(s[3]) = 2 /\ Diff(s[2], s[3]) < 4
      [] s[1] = "null" -> s[2] = <<48>>
      [] s[1] = "some" -> s[2] # <<48>>
      [] s[1] = "true" -> s[2] = <<49>>
      [] s[1] = "false" -> s[2] = <<48>>
      [] OTHER -> FALSE
\* an exception ends a test
Reached(q) == LET at == {k \in 1..Len(q) : q[k][1] = "throw"} IN IF at = {} THEN q ELSE SubSeq(q, 1, CHOOSE k \in at : \A j \in at : k <= j)
Bad(q) == SelectSeq(Reached(q), LAMBDA s : ~Good(s))
\* the counters after each assertion, for tests that start with none
Counting(q) == [k \in 1..Len(q) |-> <<k, Len(SelectSeq(SubSeq(q, 1, k), LAMBDA s : ~Good(s)))>>]
Selected(one, i) == one < 0 \/ one = i - 1
Ran(tests, one) == SelectSeq([i \in 1..Len(tests) |-> IF Selected(one, i) THEN tests[i] ELSE <<>>], LAMBDA t : t # <<>>)
Count(tests, one) == FoldLeft(LAMBDA n, t : n + Len(Reached(t[2])), 0, Ran(tests, one))
Errors(tests, one) == FoldLeft(LAMBDA n, t : n + Len(Bad(t[2])), 0, Ran(tests, one))

\* ---- what is written: lines; one about fractions is told up to their values, and the last one up to the time
Info(t) == <<0, <<73, 78, 70, 79, 58, 32>> \o t, <<>>>>
Quoted(t) == <<32, 39>> \o t \o <<39>>
Line(s) ==
    LET red == <<27, 91, 49, 109, 27, 91, 51, 49, 109, 69, 82, 82, 79, 82, 58, 32>>
        off == <<27, 91, 48, 109>>
    IN  IF s[1] = "dd" THEN <<1, red \o s[4] \o <<32, 39>>, <<39>> \o off>>
        ELSE IF s[1] \in Integral \cup {"ss", "ic"} THEN <<0, red \o s[4] \o Quoted(s[2]) \o Quoted(s[3]) \o off, <<>>>>
        ELSE <<0, red \o s[4] \o off, <<>>>>
\* "Execute NAME...", the failures (an exception tells itself when it is made), "Test finished! N Tests, E Errors."
About(t) ==
    LET bad == Bad(t[2]) IN
    <<Info(<<69, 120, 101, 99, 117, 116, 101, 32>> \o t[1] \o <<46, 46, 46>>)>> \o FoldLeft(LAMBDA q, s : q \o (IF s[1] = "throw" THEN <<Line(s), Line(s)>> ELSE <<Line(s)>>), <<>>, bad)
      \o <<Info(<<84, 101, 115, 116, 32, 102, 105, 110, 105, 115, 104, 101, 100, 33, 32>> \o P!Dec(Len(Reached(t[2])))
               \o <<32, 84, 101, 115, 116, 115, 44, 32>> \o P!Dec(Len(bad)) \o <<32, 69, 114, 114, 111, 114, 115, 46>>)>>
Report(tests, one) ==
    LET ran == Ran(tests, one)
        e == Errors(tests, one)
    IN  FoldLeft(LAMBDA q, t : q \o About(t), <<>>, ran)
          \o <<<<0, <<>>, <<>>>>,
               <<0, <<67, 121, 99, 108, 101, 32, 102, 105, 110, 105, 115, 104, 101, 100, 33, 32, 73, 110, 32, 116, 111, 116, 97, 108, 58>>, <<>>>>,
               <<0, <<84, 101, 115, 116, 115, 58, 32, 32, 32, 32>> \o P!Dec(Count(tests, one)), <<>>>>,
               <<0, <<27, 91, 51, (IF e > 0 THEN 49 ELSE 50), 109, 69, 114, 114, 111, 114, 115, 58, 32, 32, 32>> \o P!Dec(e) \o <<27, 91, 48, 109>>, <<>>>>,
               <<1, <<68, 117, 114, 97, 116, 105, 111, 110, 58, 32>>, <<32, 115, 101, 99>>>>>>
\* one line about an argument that is no number
Noted == <<1, <<27, 91, 49, 109, 27, 91, 51, 49, 109, 69, 82, 82, 79, 82, 58, 32>>, <<27, 91, 48, 109>>>>
Fits(text, w) ==
    IF w[1] = 0 THEN text = w[2] \o <<10>>
    ELSE LET n == Len(w[2]) m == Len(w[3]) k == Len(text) IN
         k > n + m + 1 /\ SubSeq(text, 1, n) = w[2] /\ SubSeq(text, k - m, k) = w[3] \o <<10>>
Written(o, tests, one, odd) ==
    \E q \in {A!LinesOf(o, 1)} : \E w \in {Report(tests, one)} \cup (IF odd THEN {<<Noted>> \o Report(tests, one)} ELSE {}) : Len(q) = Len(w) /\ \A k \in 1..Len(w) : Fits(q[k], w[k])
=============================================================================
