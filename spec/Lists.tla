-------------------------------- MODULE Lists -------------------------------
\* Lists of texts, and the pieces a tokenizer cuts a text into.
EXTENDS Integers, Sequences, FiniteSets
CONSTANT LVars
VARIABLES lst, tok, ret, thrown
Init == lst = [v \in LVars |-> <<>>] /\ tok = <<>> /\ ret = <<>> /\ thrown = FALSE
B(b) == IF b THEN 1 ELSE 0

RECURSIVE Cmp(_, _, _)
Cmp(s, t, i) ==
    IF i > Len(s) THEN IF i > Len(t) THEN 0 ELSE -1
    ELSE IF i > Len(t) THEN 1
    ELSE IF s[i] < t[i] THEN -1 ELSE IF s[i] > t[i] THEN 1 ELSE Cmp(s, t, i + 1)
\* each element as often as before
RECURSIVE InOrder(_, _)
InOrder(set, s) ==
    IF set = {} THEN <<>>
    ELSE LET m == CHOOSE t \in set : \A u \in set : Cmp(t, u, 1) <= 0
         IN  [k \in 1..Cardinality({i \in DOMAIN s : s[i] = m}) |-> m] \o InOrder(set \ {m}, s)
Sorted(s) == InOrder({s[k] : k \in DOMAIN s}, s)
Without(s, t) == SelectSeq(s, LAMBDA u : u # t)
RECURSIVE Join(_, _)
Join(s, c) ==
    IF s = <<>> THEN <<>>
    ELSE IF Len(s) = 1 THEN s[1]
    ELSE LET h == Len(s) \div 2 IN Join(SubSeq(s, 1, h), c) \o <<c>> \o Join(SubSeq(s, h + 1, Len(s)), c)

IsIn(c, d) == \E i \in DOMAIN d : d[i] = c
\* maximal runs of non-delimiters; the delimiters one by one if they are wanted too
RECURSIVE Tokens(_, _, _, _, _)
Tokens(s, d, keep, b, i) ==
    LET run == IF i > b THEN <<SubSeq(s, b, i - 1)>> ELSE <<>> IN
    IF i > Len(s) THEN run
    ELSE IF IsIn(s[i], d) THEN run \o (IF keep THEN <<<<s[i]>>>> ELSE <<>>) \o Tokens(s, d, keep, i + 1, i + 1)
    ELSE Tokens(s, d, keep, b, i + 1)

Quiet == ret' = <<>> /\ thrown' = FALSE
Say(r) == ret' = r /\ thrown' = FALSE
Refuse == ret' = <<>> /\ thrown' = TRUE
Set(v, s) == lst' = [lst EXCEPT ![v] = s] /\ Quiet /\ UNCHANGED tok
Valid(v, i) == i >= 0 /\ i < Len(lst[v])

Make(v, n) == Set(v, [k \in 1..n |-> <<>>])
MakeOne(v, t) == Set(v, <<t>>)
Append_(v, t) == Set(v, Append(lst[v], t))
AppendOwn(v, i) == Valid(v, i) /\ Set(v, Append(lst[v], lst[v][i + 1]))
Remove(v, t) == Set(v, Without(lst[v], t))
RemoveOwn(v, i) == Valid(v, i) /\ Set(v, Without(lst[v], lst[v][i + 1]))
PutAt(v, i, t) == IF Valid(v, i) THEN Set(v, [lst[v] EXCEPT ![i + 1] = t]) ELSE UNCHANGED <<lst, tok>> /\ Refuse
Get(v, i) == UNCHANGED <<lst, tok>> /\ IF Valid(v, i) THEN Say(<<lst[v][i + 1]>>) ELSE Refuse
Sort(v) == Set(v, Sorted(lst[v]))
Clear(v) == Set(v, <<>>)
Assign(v, w) == Set(v, lst[w])
Reserve(v) == Set(v, lst[v])
Contains(v, t) == UNCHANGED <<lst, tok>> /\ Say(<<B(\E i \in DOMAIN lst[v] : lst[v][i] = t)>>)
JoinAll(v, c) == UNCHANGED <<lst, tok>> /\ Say(<<Join(lst[v], c)>>)
\* cutting a text at a character leaves out empty pieces
Split(v, s, c) == Set(v, Tokens(s, <<c>>, FALSE, 1, 1))

Start(s, d, keep) == tok' = Tokens(s, d, keep, 1, 1) /\ UNCHANGED lst /\ Quiet
More == UNCHANGED <<lst, tok>> /\ Say(<<B(tok # <<>>)>>)
Take == UNCHANGED lst /\
    IF tok = <<>> THEN Refuse /\ UNCHANGED tok ELSE Say(<<tok[1]>>) /\ tok' = Tail(tok)
=============================================================================
