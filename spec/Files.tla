-------------------------------- MODULE Files --------------------------------
\* Paths and what file operations do to a directory tree. A path text is a sequence of code units; a place in the tree is
\* the sequence of names that lead to it. fs maps places to nodes: <<"d">>, <<"f", bytes>>, <<"l", place>> (a link),
\* <<"p">> (a named pipe).
EXTENDS Integers, Sequences, FiniteSets

Sep == 47  Dot == 46
\* ---- paths: no empty names, no separator at the end
RECURSIVE Comps(_)
Comps(t) ==
    IF t = <<>> THEN <<>>
    ELSE IF Head(t) = Sep THEN Comps(Tail(t))
    ELSE LET ends == {k \in 1..Len(t) : k = Len(t) \/ t[k + 1] = Sep}
             n == CHOOSE k \in ends : \A j \in ends : k <= j
         IN  <<SubSeq(t, 1, n)>> \o Comps(SubSeq(t, n + 1, Len(t)))
IsAbs(t) == t # <<>> /\ Head(t) = Sep
NoSepAtEnd(t) == t = <<>> \/ t[Len(t)] # Sep
RECURSIVE Join(_)
Join(c) == IF c = <<>> THEN <<>> ELSE IF Len(c) = 1 THEN c[1] ELSE c[1] \o <<Sep>> \o Join(Tail(c))
Norm(t) == (IF IsAbs(t) THEN <<Sep>> ELSE <<>>) \o Join(Comps(t))
Resolve(p, c) == Norm(p \o <<Sep>> \o c)
Name(t) == LET c == Comps(t) IN IF c = <<>> THEN <<>> ELSE c[Len(c)]
Parent(t) == LET c == Comps(t)
                 up == Join(SubSeq(c, 1, Len(c) - 1))
             IN  IF c = <<>> THEN (IF IsAbs(t) THEN <<Sep>> ELSE <<>>) ELSE (IF IsAbs(t) THEN <<Sep>> ELSE <<>>) \o up
Ext(t) == LET n == Name(t)
              dots == {k \in 1..Len(n) : n[k] = Dot}
          IN  IF dots = {} THEN <<>> ELSE LET k == CHOOSE k \in dots : \A j \in dots : j <= k IN SubSeq(n, k + 1, Len(n))
IsHidden(t) == Name(t) # <<>> /\ Name(t)[1] = Dot

\* ---- the tree
Has(fs, c) == c = <<>> \/ c \in DOMAIN fs
Kind(fs, c) == IF c = <<>> THEN "d" ELSE IF c \in DOMAIN fs THEN fs[c][1] ELSE ""
Up(c) == SubSeq(c, 1, Len(c) - 1)
\* the first name on the way that is no directory: "" if there is none, "miss" if it is missing, "bad" if it is something else
RECURSIVE Way(_, _, _)
Way(fs, c, n) == IF n >= Len(c) THEN ""
                 ELSE LET k == Kind(fs, SubSeq(c, 1, n)) IN
                      IF k = "d" THEN Way(fs, c, n + 1) ELSE IF k = "" THEN "miss" ELSE "bad"
Reachable(fs, c) == Way(fs, c, 1) = ""
\* the place that following every link leads to
None == <<<<0>>>>
RECURSIVE Real(_, _, _, _)
Real(fs, done, rest, n) ==
    IF rest = <<>> THEN done
    ELSE LET next == done \o <<Head(rest)>> IN
         IF Kind(fs, next) # "l" THEN Real(fs, next, Tail(rest), n)
         ELSE IF n = 0 THEN None
         ELSE Real(fs, <<>>, fs[next][2] \o Tail(rest), n - 1)
Final(fs, c) == Real(fs, <<>>, c, 20)
\* the place itself, with the links on the way followed
Place(fs, c) == IF c = <<>> THEN c ELSE Real(fs, <<>>, Up(c), 20) \o <<c[Len(c)]>>
Exists(fs, c) == Has(fs, Final(fs, c))
Children(fs, c) == {d \in DOMAIN fs : Len(d) = Len(c) + 1 /\ SubSeq(d, 1, Len(c)) = c}
Under(fs, c) == {d \in DOMAIN fs : Len(d) >= Len(c) /\ SubSeq(d, 1, Len(c)) = c}
With(fs, c, n) == [d \in DOMAIN fs \cup {c} |-> IF d = c THEN n ELSE fs[d]]
Without(fs, S) == [d \in DOMAIN fs \ S |-> fs[d]]

CanCreate(fs, c) == c # <<>> /\ ~Has(fs, c) /\ Reachable(fs, c)
CanRemove(fs, c) == c # <<>> /\ Has(fs, c) /\ (Kind(fs, c) = "d" => Children(fs, c) = {})
\* a place is moved onto another one: nothing there, or something of the kind that can be replaced
CanRename(fs, c, d) ==
    /\ c # <<>> /\ d # <<>> /\ Has(fs, c) /\ Reachable(fs, d)
    /\ \/ c = d
       \/ /\ ~(Len(d) > Len(c) /\ SubSeq(d, 1, Len(c)) = c)
          /\ \/ ~Has(fs, d)
             \/ Kind(fs, c) = "d" /\ Kind(fs, d) = "d" /\ Children(fs, d) = {}
             \/ Kind(fs, c) # "d" /\ Kind(fs, d) # "d"
Rename(fs, c, d) ==
    IF c = d THEN fs
    ELSE LET moved == Under(fs, c)
             To(x) == d \o SubSeq(x, Len(c) + 1, Len(x))
             rest == (DOMAIN fs \ moved) \ {d}
         IN  [x \in rest \cup {To(y) : y \in moved} |->
                 IF x \in rest THEN fs[x] ELSE fs[c \o SubSeq(x, Len(d) + 1, Len(x))]]
\* a tree: everything is in a directory
Tree(fs) == \A c \in DOMAIN fs : c # <<>> /\ Kind(fs, Up(c)) = "d"
=============================================================================
