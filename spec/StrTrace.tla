------------------------------ MODULE StrTrace ------------------------------
EXTENDS TraceLib
\* With "text" not watched the texts are taken from the recording and only what is said about them counts.
CONSTANT Watch
VARIABLES txt, ret, thrown, l
Vars == 1..4
S == INSTANCE Str
Init == S!Init /\ l = 1
B(b) == IF b THEN 1 ELSE 0

Edit(e) ==
    LET a == e.a IN
    CASE e.op = "new"     -> txt' = [v \in Vars |-> <<>>] /\ ret' = <<>> /\ thrown' = FALSE
      [] e.op \in {"lit", "litc", "litn"} -> S!Literal(a[1], a[2])
      [] e.op \in {"assign", "copy"} -> S!Assign(a[1], a[2])
      [] e.op \in {"append", "pluseq", "shl"} -> S!AppendS(a[1], a[2])
      [] e.op = "appendc" -> S!AppendC(a[1], a[2])
      [] e.op = "plus"    -> S!Plus(a[1], a[2], a[3])
      [] e.op = "insertc" -> S!InsertC(a[1], a[2], a[3])
      [] e.op = "inserts" -> S!InsertS(a[1], a[2], a[3])
      [] e.op = "deletec" -> S!DeleteC(a[1], a[2])
      [] e.op = "deleter" -> S!DeleteR(a[1], a[2], a[3])
      [] e.op = "setc"    -> S!SetC(a[1], a[2], a[3])
      [] e.op \in {"clear", "zero"} -> S!Clear(a[1])
      [] e.op = "sub"     -> S!TakeSub(a[1], a[2], a[3], a[4])
      [] e.op = "tail"    -> S!TakeTail(a[1], a[2], a[3])
      [] e.op = "lower"   -> S!TakeLower(a[1], a[2])
      [] e.op = "upper"   -> S!TakeUpper(a[1], a[2])
      [] e.op = "trim"    -> S!TakeTrim(a[1], a[2])
      [] e.op = "reverse" -> S!TakeReverse(a[1], a[2])
      [] e.op = "replc"   -> S!TakeReplC(a[1], a[2], a[3], a[4])
      [] e.op = "repls"   -> S!TakeReplS(a[1], a[2], a[3], a[4])
Queries == {"get", "size", "units", "idxc", "idxs", "lidxc", "lidxcf", "lidxs", "starts", "at", "count", "split",
            "eq", "natural", "hash", "chars", "charcmp"}
\* texts between single separators, empty ones left out
RECURSIVE Split(_, _, _)
Split(s, c, b) ==
    LET e == S!FirstAt(s, <<c>>, b)
        part == S!Cut(s, b, IF e < 0 THEN Len(s) ELSE e)
    IN (IF part = <<>> THEN <<>> ELSE <<part>>) \o (IF e < 0 THEN <<>> ELSE Split(s, c, e + 1))

Query(e) ==
    LET a == e.a  s == txt[a[1]] IN
    CASE e.op = "get"    -> S!GetC(a[1], a[2])
      [] e.op = "size"   -> S!Tell(<<Len(s), B(s = <<>>)>>)
      [] e.op = "units"  -> S!Tell(Append(s, 0))
      [] e.op = "idxc"   -> S!Tell(<<S!FirstAt(s, <<a[2]>>, S!Max2(a[3], 0)), S!FirstAt(s, <<a[2]>>, 0)>>)
      [] e.op = "idxs"   -> S!Tell(<<S!FirstAt(s, txt[a[2]], S!Max2(a[3], 0)), S!FirstAt(s, txt[a[2]], 0)>>)
      [] e.op = "lidxc"  -> S!Tell(<<S!LastAt(s, <<a[2]>>, Len(s) - 1)>>)
      [] e.op = "lidxcf" -> S!Tell(<<S!LastAt(s, <<a[2]>>, a[3])>>)
      [] e.op = "lidxs"  -> S!Tell(<<S!LastAt(s, txt[a[2]], S!Min2(a[3], Len(s))), S!LastAt(s, txt[a[2]], Len(s))>>)
      [] e.op = "starts" -> S!Tell(<<B(S!At(s, 0, txt[a[2]])), B(S!At(s, Len(s) - Len(txt[a[2]]), txt[a[2]]))>>)
      [] e.op = "at"     -> S!Tell(<<B(S!At(s, a[2], txt[a[3]])), B(S!At(S!Lower(s), a[2], S!Lower(txt[a[3]])))>>)
      [] e.op = "count"  -> S!Tell(<<S!CountC(s, a[2])>>)
      [] e.op = "split"  -> S!Tell(Split(s, a[2], 0))
      [] e.op = "eq"     -> S!EqualT(a[1], a[2])
      [] e.op = "natural" -> S!Tell(<<S!CompareNatural(s, txt[a[2]])>>)
      [] e.op = "chars"  -> S!Tell([k \in 1..(a[3] - a[2] + 1) |-> S!CharInfo(a[2] + k - 1)])
      [] e.op = "charcmp" -> LET x == a[2] y == a[3] IN S!Tell(<<B(x = y), B(x # y), B(x < y), B(x <= y), B(x > y), B(x >= y)>>)
      [] e.op = "hash"   -> S!Tell(<<1, 1, 1, 1>>)

Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       IF e.op \in Queries
       THEN Query(e) /\ e.r = ret' /\ e.x = B(thrown') /\ e.o = txt'
       ELSE IF "text" \in Watch
       THEN Edit(e) /\ e.r = ret' /\ e.x = B(thrown') /\ e.o = txt'
       ELSE txt' = [v \in Vars |-> e.o[v]] /\ ret' = <<>> /\ thrown' = FALSE
    /\ l' = l + 1
\* Documented only for these arguments
Legal(e) ==
    CASE e.op \in {"idxs", "lidxs"} -> txt[e.a[2]] # <<>>
      [] e.op = "lidxcf" -> e.a[3] \in 0..(Len(txt[e.a[1]]) - 1)
      [] e.op = "at" -> e.a[2] >= 0
      [] e.op = "deleter" -> e.a[3] >= 0
      [] OTHER -> TRUE
Mem == /\ l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)
       /\ Remember([txt |-> txt])
=============================================================================
