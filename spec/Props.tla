-------------------------------- MODULE Props -------------------------------
\* Properties of an object as a property editor shows them, and variants. A property has a description given once and
\* a value: a text and a number kept side by side, the kind of the value set last, and which representation the number
\* has: "i" whole, "b" true or false, "d" floating point, "0" none was set yet.
\* A whole number is <<h, m, l>>, h * 2^60 + m * 2^30 + l with m and l below 2^30; a floating point number is counted in quarters.
EXTENDS Integers, Sequences
KString == 0
KInteger == 1
KDouble == 2
KBoolean == 6
KValue == 7
NoNumber == <<"0", 0>>
Whole(n) == <<"i", n>>
Truth(b) == <<"b", b>>
Real(q) == <<"d", q>>
\* all of its bits are zero
Zero(x) == \/ x[1] = "0"
           \/ x[1] = "i" /\ x[2] = <<0, 0, 0>>
           \/ x[1] \in {"b", "d"} /\ x[2] = 0
\* whether two numbers are the same can be told for the same representation; zero is zero in all of them
Told(x, y) == x[1] = y[1] \/ Zero(x) \/ Zero(y)
SameNumber(x, y) == (x[1] = y[1] /\ x[2] = y[2]) \/ (Zero(x) /\ Zero(y))

\* d: <<id, group, name, hint, editor, read only, change mode, may be empty>>
Fresh(d) == [d |-> d, icon |-> <<>>, text |-> <<>>, num |-> NoNumber, type |-> KString]
Default == <<<<>>, <<>>, <<>>, <<>>, <<>>, 0, 0, 1>>
Named(id) == [Default EXCEPT ![1] = id]
SetText(p, s) == [p EXCEPT !.text = s, !.type = KString]
SetWhole(p, n) == [p EXCEPT !.num = Whole(n), !.type = KInteger]
SetReal(p, q) == [p EXCEPT !.num = Real(q), !.type = KDouble]
SetTruth(p, b) == [p EXCEPT !.num = Truth(b), !.type = KBoolean]
SetUnit(p, q, u) == [p EXCEPT !.num = Real(q), !.text = u, !.type = KValue]
SetKind(p, k) == [p EXCEPT !.type = k]
SetIcon(p, s) == [p EXCEPT !.icon = s]
\* takes over the value, not the description
Take(p, q) == [p EXCEPT !.text = q.text, !.num = q.num, !.type = q.type]
ValueTold(p, q) == p.text # q.text \/ Told(p.num, q.num)
ValueEquals(p, q) == p.text = q.text /\ SameNumber(p.num, q.num)
\* what an editor edits
EditsText == {<<116, 101, 120, 116, 102, 105, 101, 108, 100>>, <<102, 105, 108, 101>>, <<100, 119, 103, 108, 97, 121, 101, 114>>}
EditsWhole == {<<110, 117, 109, 98, 101, 114>>, <<99, 111, 109, 98, 111, 98, 111, 120>>, <<100, 119, 103, 99, 111, 108, 111, 117, 114>>}
EditsTruth == {<<99, 104, 101, 99, 107, 98, 111, 120>>}
EditsValue == {<<118, 97, 108, 117, 101>>}
Id(p) == p.d[1]
Editor(p) == p.d[5]
Is(x, kinds) == Zero(x) \/ x[1] \in kinds
\* properties are the same if they are about the same thing, edited in the same way, and have the same value there;
\* told if the numbers have the representation the editor asks for
EqualTold(p, q) ==
    \/ Id(p) # Id(q) \/ Editor(p) # Editor(q)
    \/ p.type = KValue /\ q.type = KValue /\ Is(p.num, {"d"}) /\ Is(q.num, {"d"})
    \* a value with a unit beside a value of another kind: where text and number say the same
    \/ /\ (p.type = KValue) # (q.type = KValue) /\ Is(p.num, {"d"}) /\ Is(q.num, {"d"})
       /\ \/ Editor(p) \in EditsValue
          \/ Editor(p) \in EditsText /\ (p.text # q.text \/ SameNumber(p.num, q.num))
          \/ Editor(p) \in EditsWhole /\ (~SameNumber(p.num, q.num) \/ p.text = q.text)
    \/ /\ p.type # KValue /\ q.type # KValue
       /\ CASE Editor(p) \in EditsWhole -> Is(p.num, {"i"}) /\ Is(q.num, {"i"})
            [] Editor(p) \in EditsTruth -> Is(p.num, {"b"}) /\ Is(q.num, {"b"})
            [] Editor(p) \in EditsValue -> Is(p.num, {"d"}) /\ Is(q.num, {"d"})
            [] OTHER -> TRUE
Equal(p, q) ==
    /\ Id(p) = Id(q) /\ Editor(p) = Editor(q)
    /\ IF p.type = KValue \/ Editor(p) \in EditsValue THEN p.text = q.text /\ SameNumber(p.num, q.num)
       ELSE \/ Editor(p) \in EditsText /\ p.text = q.text
            \/ Editor(p) \in EditsWhole \cup EditsTruth /\ SameNumber(p.num, q.num)

\* variants: the text counts only for a text
VNew == [type |-> KInteger, num |-> Whole(<<0, 0, 0>>), text |-> <<>>]
VWhole(n) == [type |-> KInteger, num |-> Whole(n), text |-> <<>>]
VReal(q) == [type |-> KDouble, num |-> Real(q), text |-> <<>>]
VText(s) == [type |-> KString, num |-> NoNumber, text |-> s]
VAssign(v, w) == [type |-> w.type, num |-> w.num, text |-> IF w.type = KString THEN w.text ELSE v.text]
=============================================================================
