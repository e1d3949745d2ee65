-------------------------------- MODULE MCTst -------------------------------
\* All vectors of a few tests, with every kind of assertion, asked for all or for one.
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, Kinds, MaxTests, MaxAsserts
VARIABLES one, tests, op
T == INSTANCE Tst
View == <<one, tests>>
N0 == <<48>>
N1 == <<49>>
M == <<109>>
Numerals == {<<k, x, y, M>> : k \in {"ll", "li", "uu", "ui", "uj", "ii", "jj", "ij", "ji", "pp"}, x \in {N0, N1}, y \in {N0, N1}}
Texts == {<<k, x, y, M>> : k \in {"ss", "ic"}, x \in {<<>>, <<97>>, <<65>>}, y \in {<<97>>, <<98>>, <<97, 97>>}}
Fractions == {<<"dd", x, y, M>> : x \in {<<0, 0>>, <<1, 3>>}, y \in {<<0, 0>>, <<0, 3>>, <<0, 5>>, <<0, -3>>, <<0, -5>>, <<1, 0>>, <<>>, <<1>>}}
Others == {<<k, x, <<>>, M>> : k \in {"null", "some", "true", "false"}, x \in {N0, N1}} \cup {<<k, <<>>, <<>>, M>> : k \in {"fail", "unexp", "throw"}}
Few == {<<"ll", N0, N0, M>>, <<"ss", <<97>>, <<98>>, M>>, <<"true", N0, <<>>, M>>, <<"throw", <<>>, <<>>, M>>}
Asserts == IF Kinds = "all" THEN Numerals \cup Texts \cup Fractions \cup Others ELSE Few
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \cup {<<s>> \o q : s \in Asserts, q \in Lists(n - 1)}
Name == <<84, 32, 49>>
Init == one = -1 /\ tests = <<>> /\ op = <<"new", <<>>>>
Add(t) == Len(tests) < MaxTests /\ tests' = tests \o <<t>> /\ UNCHANGED one
Same == UNCHANGED <<one, tests>>
Next ==
    \/ \E q \in Lists(MaxAsserts) : Add(<<Name, q>>) /\ op' = <<"add", Name, q>>
    \/ Add(<<>>) /\ op' = <<"none">>
    \/ Kinds = "few" /\ UNCHANGED one /\ \E i \in 1..Len(tests) : tests[i] # <<>> /\ tests' = [tests EXCEPT ![i][1] = <<78>>] /\ op' = <<"name", i, <<78>>>>
    \/ Same /\ op' = <<"run">>
    \/ one' = -1 /\ tests' = <<>> /\ \E a \in {<<>>, <<45, 49>>, <<97>>} : op' = <<"new", a>>
    \/ \E k \in 0..MaxTests : one' = k /\ tests' = <<>> /\ op' = <<"new", <<48 + k>>>>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
RECURSIVE Sum(_, _)
Sum(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + Sum(F, n - 1)
\* what all tests find is what the single ones find together
Apart == LET c(i) == T!Count(tests, i - 1) e(i) == T!Errors(tests, i - 1) n == Len(tests) IN
         T!Count(tests, -1) = Sum(c, n) /\ T!Errors(tests, -1) = Sum(e, n) /\ T!Count(tests, n) = 0
\* one line for each failure (and one more for an exception), five at the end, and two for each test; none is lost, whatever ends the test
Thrown == T!Errors([i \in 1..Len(tests) |-> IF tests[i] = <<>> THEN <<>> ELSE <<tests[i][1], SelectSeq(tests[i][2], LAMBDA s : s[1] = "throw")>>], one)
Lines == Len(T!Report(tests, one)) = T!Errors(tests, one) + Thrown + 2 * Len(T!Ran(tests, one)) + 5
Within == T!Errors(tests, one) <= T!Count(tests, one)
\* a failure is seen whatever stands before it, but for an exception
Seen == \A i \in 1..Len(tests) : tests[i] # <<>> => \A k \in 1..Len(tests[i][2]) :
          ((\A j \in 1..(k - 1) : tests[i][2][j][1] # "throw") /\ ~T!Good(tests[i][2][k])) => T!Errors(tests, i - 1) > 0
\* two outcomes that the text of a report keeps apart
Symmetric == \A s \in Asserts : (T!Told(s) /\ s[1] \in {"ll", "uu", "ss", "ic", "dd"}) => T!Good(s) = T!Good(<<s[1], s[3], s[2], s[4]>>)
=============================================================================
