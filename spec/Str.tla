--------------------------------- MODULE Str --------------------------------
\* Mutable string variables: every edit acts on the text like on a sequence, on that variable only. Calls
\* that point outside the text are refused and change nothing.
EXTENDS StrFn
CONSTANT Vars
VARIABLES txt, ret, thrown

Init == txt = [v \in Vars |-> <<>>] /\ ret = <<>> /\ thrown = FALSE

Put(v, s) == txt' = [txt EXCEPT ![v] = s] /\ ret' = <<>> /\ thrown' = FALSE
Refuse == UNCHANGED txt /\ ret' = <<>> /\ thrown' = TRUE
Tell(r) == UNCHANGED txt /\ ret' = r /\ thrown' = FALSE
B(b) == IF b THEN 1 ELSE 0

Literal(v, s) == Put(v, s)
Assign(v, w) == Put(v, txt[w])
AppendS(v, w) == Put(v, txt[v] \o txt[w])
AppendC(v, c) == Put(v, Append(txt[v], c))
Plus(v, w, x) == Put(v, txt[w] \o txt[x])
InsertC(v, i, c) == IF i \in 0..Len(txt[v]) THEN Put(v, Ins(txt[v], i, <<c>>)) ELSE Refuse
InsertS(v, i, w) == IF i \in 0..Len(txt[v]) THEN Put(v, Ins(txt[v], i, txt[w])) ELSE Refuse
DeleteC(v, i) == IF i >= 0 /\ i < Len(txt[v]) THEN Put(v, Del(txt[v], i, 1)) ELSE Refuse
DeleteR(v, i, n) == IF i \in 0..Len(txt[v]) THEN Put(v, Del(txt[v], i, n)) ELSE Refuse
SetC(v, i, c) == IF i >= 0 /\ i < Len(txt[v]) THEN Put(v, [txt[v] EXCEPT ![i + 1] = c]) ELSE Refuse
GetC(v, i) == IF i >= 0 /\ i < Len(txt[v]) THEN Tell(<<txt[v][i + 1]>>) ELSE Refuse
Clear(v) == Put(v, <<>>)
TakeSub(v, w, b, e) == Put(v, Sub(txt[w], b, e))
TakeTail(v, w, b) == Put(v, Sub(txt[w], b, Len(txt[w])))
TakeLower(v, w) == Put(v, Lower(txt[w]))
TakeUpper(v, w) == Put(v, Upper(txt[w]))
TakeTrim(v, w) == Put(v, Trim(txt[w]))
TakeReverse(v, w) == Put(v, Rev(txt[w]))
TakeReplC(v, w, a, b) == Put(v, ReplC(txt[w], a, b))
TakeReplS(v, w, a, b) == Put(v, ReplS(txt[w], txt[a], txt[b]))

\* Agreement: equality, ordering and hashing of two variables. The hash code is any function of the text.
EqualT(v, w) == Tell(<<B(txt[v] = txt[w]), B(txt[v] = txt[w]), B(txt[v] # txt[w]), B(txt[v] = txt[w]),
                       Compare(txt[v], txt[w]), B(Compare(txt[v], txt[w]) < 0),
                       B(Lower(txt[v]) = Lower(txt[w]))>>)
=============================================================================
