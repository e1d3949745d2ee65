-------------------------------- MODULE MCXml --------------------------------
\* All sequences of writer calls of a bounded instance; all short texts.
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, Kind, MaxItems, MaxDepth, MaxLen
VARIABLES w, t, done, op
X == INSTANCE Xml
View == <<w, t, done>>
A == <<97>>  Bb == <<98>>
Init == w = X!W0 /\ t = (IF Kind = "read" THEN <<60, 97>> ELSE <<>>) /\ done = 0 /\ op = <<"new">>
Busy == w.fr # <<>>
Free == done = 0 /\ Len(w.it) < MaxItems
Values == {<<>>, <<60, 38, 39>>}
Begin(n) == (Busy \/ w.it = <<>>) /\ Len(w.fr) < MaxDepth /\ w' = X!WStart(w, n)
Attr(v) == Busy /\ (IF X!Top(w)[3] THEN TRUE ELSE w.it[Len(w.it)][3] = <<>>) /\ w' = X!WAttr(w, Bb, v)
Write(v) == Busy /\ (w.it[Len(w.it)][1] = "text" => v = <<>>) /\ w' = X!WText(w, v)
Indent == w.depth < 6 /\ w' = X!WIndent(w)
Unindent == w.depth > 0 /\ w' = X!WUnindent(w)
End == Busy /\ w' = X!WEnd(w)
Finish == ~Busy /\ w.it # <<>> /\ done = 0 /\ done' = 1
\* reading: characters of a small document; only prefixes of well-formed ones are continued
Chars == {60, 62, 47, 97, 61, 34, 39, 32, 38}
More(c) == Len(t) < MaxLen /\ t' = Append(t, c) /\ X!Parse(t').m # "bad" /\ op' = <<"junk", t'>>
Finite(s) == X!WellFormed(X!Parse(s))
Next ==
    \/ Kind = "write" /\ Free /\ UNCHANGED <<t, done>> /\ \E n \in {A, Bb} : Begin(n) /\ op' = <<"start", n>>
    \/ Kind = "write" /\ Free /\ UNCHANGED <<t, done>> /\ \E v \in Values : Attr(v) /\ op' = <<"attr", Bb, v>>
    \/ Kind = "write" /\ Free /\ UNCHANGED <<t, done>> /\ \E v \in Values \cup {<<32, 10>>} : Write(v) /\ op' = <<"text", v>>
    \/ Kind = "write" /\ Free /\ UNCHANGED <<t, done>> /\ Indent /\ op' = <<"indent">>
    \/ Kind = "write" /\ Free /\ UNCHANGED <<t, done>> /\ Unindent /\ op' = <<"unindent">>
    \/ Kind = "write" /\ done = 0 /\ UNCHANGED <<t, done>> /\ End /\ op' = <<"end">>
    \/ Kind = "write" /\ UNCHANGED <<t, w>> /\ Finish /\ op' = <<"finish">>
    \/ Kind = "read" /\ UNCHANGED <<w, done>> /\ \E c \in Chars : More(c)
    \/ Kind = "read" /\ UNCHANGED <<w, t, done>> /\ Finite(t) /\ op' = <<"parse", t>>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
\* what was written can be read: the items of the calls are the items of their text
Back == (~Busy /\ w.it # <<>>) => \E p \in {X!Parse(X!Show(w.it))} : X!WellFormed(p) /\ p.it = w.it
\* and the items of a text that was read are the items of their own text
Again == Kind = "read" => \A p \in {X!Parse(t)} : X!WellFormed(p) => \E r \in {X!Parse(X!Show(p.it))} : X!WellFormed(r) /\ r.it = p.it
Balanced == Len(w.fr) = Len(SelectSeq(w.it, LAMBDA i : i[1] = "start")) - Len(SelectSeq(w.it, LAMBDA i : i[1] = "end"))
=============================================================================
