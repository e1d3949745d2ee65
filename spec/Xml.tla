--------------------------------- MODULE Xml ---------------------------------
\* XML documents. A document is a sequence of items: <<"start", name, attributes>>, <<"end", name>>, <<"text", characters>>.
\* The reader is a machine that takes one character after the other; the writer is a machine that takes calls.
EXTENDS Integers, Sequences, SequencesExt

White == {9, 10, 13, 32}
Lt == 60  Gt == 62  Amp == 38  Quot == 34  Apos == 39  Slash == 47  Eq == 61  Semi == 59  Quest == 63  Bang == 33  Minus == 45
Markup == {Lt, Gt, Amp, Quot, Apos, Slash, Eq}
NameChar(c) == c \notin Markup \cup White
Entities == {<<<<108, 116>>, Lt>>, <<<<103, 116>>, Gt>>, <<<<97, 109, 112>>, Amp>>, <<<<113, 117, 111, 116>>, Quot>>,
             <<<<97, 112, 111, 115>>, Apos>>}
Start0 == [m |-> "text", it |-> <<>>, st |-> <<>>, tx |-> <<>>, nm |-> <<>>, at |-> <<>>, an |-> <<>>, q |-> 0, en |-> <<>>]
Bad(s) == [s EXCEPT !.m = "bad"]
Flush(it, tx) == IF tx = <<>> THEN it ELSE Append(it, <<"text", tx>>)
Open(s) == [s EXCEPT !.m = "text", !.it = Append(Flush(s.it, s.tx), <<"start", s.nm, s.at>>), !.st = Append(s.st, s.nm), !.tx = <<>>]
Empty(s) == [s EXCEPT !.m = "text", !.it = Flush(s.it, s.tx) \o <<<<"start", s.nm, s.at>>, <<"end", s.nm>>>>, !.tx = <<>>]
Close(s) == IF s.st = <<>> \/ s.st[Len(s.st)] # s.nm THEN Bad(s)
            ELSE [s EXCEPT !.m = "text", !.it = Append(Flush(s.it, s.tx), <<"end", s.nm>>), !.st = SubSeq(s.st, 1, Len(s.st) - 1), !.tx = <<>>]
Char(s, c) ==
    CASE s.m = "text" ->
            (CASE c = Lt -> [s EXCEPT !.m = "lt"]
               [] c = Amp -> [s EXCEPT !.m = "ent", !.en = <<>>]
               [] s.st = <<>> -> IF c \in White THEN s ELSE Bad(s)
               [] OTHER -> [s EXCEPT !.tx = Append(@, c)])
      [] s.m \in {"ent", "aent"} ->
            (IF c = Semi
             THEN IF \E e \in Entities : e[1] = s.en
                  THEN LET x == (CHOOSE e \in Entities : e[1] = s.en)[2] IN
                       IF s.m = "ent" THEN (IF s.st = <<>> THEN Bad(s) ELSE [s EXCEPT !.m = "text", !.tx = Append(@, x)])
                       ELSE [s EXCEPT !.m = "aval", !.at[Len(s.at)][2] = Append(@, x)]
                  ELSE Bad(s)
             ELSE IF NameChar(c) /\ Len(s.en) < 8 THEN [s EXCEPT !.en = Append(@, c)] ELSE Bad(s))
      [] s.m = "lt" ->
            (CASE c = Slash -> [s EXCEPT !.m = "close", !.nm = <<>>]
               [] c = Quest -> [s EXCEPT !.m = "pi"]
               [] c = Bang -> [s EXCEPT !.m = "bang"]
               [] NameChar(c) -> [s EXCEPT !.m = "name", !.nm = <<c>>, !.at = <<>>]
               [] OTHER -> Bad(s))
      [] s.m = "name" ->
            (CASE NameChar(c) -> [s EXCEPT !.nm = Append(@, c)]
               [] c \in White -> [s EXCEPT !.m = "tag"]
               [] c = Gt -> Open(s)
               [] c = Slash -> [s EXCEPT !.m = "slash"]
               [] OTHER -> Bad(s))
      [] s.m = "tag" ->
            (CASE c \in White -> s
               [] c = Gt -> Open(s)
               [] c = Slash -> [s EXCEPT !.m = "slash"]
               [] NameChar(c) -> [s EXCEPT !.m = "aname", !.an = <<c>>]
               [] OTHER -> Bad(s))
      [] s.m = "aname" ->
            (CASE NameChar(c) -> [s EXCEPT !.an = Append(@, c)]
               [] c \in White -> [s EXCEPT !.m = "eq"]
               [] c = Eq -> [s EXCEPT !.m = "quote"]
               [] OTHER -> Bad(s))
      [] s.m = "eq" -> (IF c \in White THEN s ELSE IF c = Eq THEN [s EXCEPT !.m = "quote"] ELSE Bad(s))
      [] s.m = "quote" ->
            (CASE c \in White -> s
               [] c \in {Quot, Apos} -> IF \E k \in 1..Len(s.at) : s.at[k][1] = s.an THEN Bad(s)
                                        ELSE [s EXCEPT !.m = "aval", !.q = c, !.at = Append(@, <<s.an, <<>>>>)]
               [] OTHER -> Bad(s))
      [] s.m = "aval" ->
            (CASE c = s.q -> [s EXCEPT !.m = "after"]
               [] c = Lt -> Bad(s)
               [] c = Amp -> [s EXCEPT !.m = "aent", !.en = <<>>]
               [] OTHER -> [s EXCEPT !.at[Len(s.at)][2] = Append(@, c)])
      [] s.m = "after" ->
            (CASE c \in White -> [s EXCEPT !.m = "tag"]
               [] c = Gt -> Open(s)
               [] c = Slash -> [s EXCEPT !.m = "slash"]
               [] OTHER -> Bad(s))
      [] s.m = "slash" -> (IF c = Gt THEN Empty(s) ELSE Bad(s))
      [] s.m = "close" ->
            (CASE NameChar(c) -> [s EXCEPT !.nm = Append(@, c)]
               [] c \in White /\ s.nm # <<>> -> [s EXCEPT !.m = "closed"]
               [] c = Gt -> Close(s)
               [] OTHER -> Bad(s))
      [] s.m = "closed" -> (IF c \in White THEN s ELSE IF c = Gt THEN Close(s) ELSE Bad(s))
      \* instructions and comments are no items
      [] s.m = "pi" -> (IF c = Quest THEN [s EXCEPT !.m = "pi2"] ELSE s)
      [] s.m = "pi2" -> (IF c = Gt THEN [s EXCEPT !.m = "text"] ELSE IF c = Quest THEN s ELSE [s EXCEPT !.m = "pi"])
      [] s.m = "bang" -> (IF c = Minus THEN [s EXCEPT !.m = "bang2"] ELSE Bad(s))
      [] s.m = "bang2" -> (IF c = Minus THEN [s EXCEPT !.m = "com"] ELSE Bad(s))
      [] s.m = "com" -> (IF c = Minus THEN [s EXCEPT !.m = "com2"] ELSE s)
      [] s.m = "com2" -> (IF c = Minus THEN [s EXCEPT !.m = "com3"] ELSE [s EXCEPT !.m = "com"])
      [] s.m = "com3" -> (IF c = Gt THEN [s EXCEPT !.m = "text"] ELSE Bad(s))
      [] OTHER -> s
Parse(t) == FoldLeft(Char, Start0, t)
Roots(it) == LET d == FoldLeft(LAMBDA a, x : IF x[1] = "start" THEN <<a[1] + 1, a[2] + (IF a[1] = 0 THEN 1 ELSE 0)>>
                                             ELSE IF x[1] = "end" THEN <<a[1] - 1, a[2]>> ELSE a, <<0, 0>>, it)
             IN  d[2]
WellFormed(s) == s.m = "text" /\ s.st = <<>> /\ Roots(s.it) = 1

\* ---- the writer: items so far; frames of open elements <<name, written on a line of its own, has content, has text>>;
\* the depth of indentation; whether the next element gets a line of its own
W0 == [it |-> <<>>, fr |-> <<>>, depth |-> 0, line |-> FALSE]
Spaces(n) == [k \in 1..n |-> 32]
Text(it, t) == IF t = <<>> THEN it
               ELSE IF it # <<>> /\ it[Len(it)][1] = "text" THEN [it EXCEPT ![Len(it)] = <<"text", @[2] \o t>>]
               ELSE Append(it, <<"text", t>>)
Line(w) == <<10>> \o Spaces(w.depth)
Full(w) == [w EXCEPT !.fr = IF w.fr = <<>> THEN w.fr ELSE [w.fr EXCEPT ![Len(w.fr)][3] = TRUE]]
Top(w) == w.fr[Len(w.fr)]
WIndent(w) == [Full(w) EXCEPT !.depth = @ + 3, !.line = TRUE]
WUnindent(w) == [Full(w) EXCEPT !.depth = @ - 3, !.line = FALSE]
WStart(w, n) == [Full(w) EXCEPT !.it = Append(IF w.line /\ w.fr # <<>> THEN Text(w.it, Line(w)) ELSE w.it, <<"start", n, <<>>>>),
                                !.fr = Append(Full(w).fr, <<n, w.line, FALSE, FALSE>>), !.line = FALSE]
WAttr(w, n, v) == IF w.fr = <<>> \/ Top(w)[3] THEN w
                  ELSE [w EXCEPT !.it[Len(w.it)][3] = Append(@, <<n, v>>), !.line = FALSE]
WText(w, t) == [Full(w) EXCEPT !.it = Text(w.it, t), !.fr[Len(w.fr)][3] = TRUE, !.fr[Len(w.fr)][4] = TRUE, !.line = FALSE]
WEnd(w) == IF w.fr = <<>> THEN [w EXCEPT !.line = FALSE]
           ELSE LET f == Top(w) IN
                [w EXCEPT !.it = Append(IF f[3] /\ f[2] /\ ~f[4] THEN Text(w.it, Line(w)) ELSE w.it, <<"end", f[1]>>),
                          !.fr = SubSeq(w.fr, 1, Len(w.fr) - 1), !.line = FALSE]
\* the text the calls describe, in one of the ways XML allows
Esc(t) == FoldLeft(LAMBDA o, c : o \o (CASE c = Lt -> <<Amp, 108, 116, Semi>> [] c = Gt -> <<Amp, 103, 116, Semi>>
              [] c = Amp -> <<Amp, 97, 109, 112, Semi>> [] c = Quot -> <<Amp, 113, 117, 111, 116, Semi>>
              [] c = Apos -> <<Amp, 97, 112, 111, 115, Semi>> [] OTHER -> <<c>>), <<>>, t)
Show(it) == FoldLeft(LAMBDA o, x :
    CASE x[1] = "text" -> o \o Esc(x[2])
      [] x[1] = "end" -> o \o <<Lt, Slash>> \o x[2] \o <<Gt>>
      [] OTHER -> o \o <<Lt>> \o x[2] \o FoldLeft(LAMBDA p, a : p \o <<32>> \o a[1] \o <<Eq, Quot>> \o Esc(a[2]) \o <<Quot>>, <<>>, x[3])
                  \o <<Gt>>, <<>>, it)
=============================================================================
