------------------------------- MODULE MCFiles -------------------------------
\* Every history of file operations on a small tree; all short paths.
EXTENDS Integers, Sequences, FiniteSets, TLC, Walk
CONSTANTS Emit, Kind, Texts, MaxNodes, MaxLen, Alphabet
VARIABLES fs, t, op
F == INSTANCE Files
View == <<fs, t>>
TextOf(n) == CASE n = 1 -> <<97>> [] n = 2 -> <<98, 47>> [] n = 3 -> <<97, 47, 98>> [] n = 4 -> <<97, 47, 47, 97>>
    [] n = 5 -> <<98, 47, 97>> [] n = 6 -> <<97, 47, 98, 47, 47, 97, 47>>
Init == fs = [c \in {} |-> <<>>] /\ t = <<>> /\ op = <<"new">>
C(n) == F!Comps(TextOf(n))
Create(n) == fs' = (IF F!CanCreate(fs, C(n)) THEN F!With(fs, C(n), <<"f", <<>>>>) ELSE fs)
Mkdir(n) == fs' = (IF F!CanCreate(fs, C(n)) THEN F!With(fs, C(n), <<"d">>) ELSE fs)
Node(n, v) == F!CanCreate(fs, C(n)) /\ fs' = F!With(fs, C(n), v)
Remove(n) == fs' = (IF F!CanRemove(fs, C(n)) THEN F!Without(fs, {C(n)}) ELSE fs)
\* a separator at the end of the new path is for directories
Ren(n, m) == (F!Kind(fs, C(n)) = "d" \/ F!NoSepAtEnd(TextOf(m))) /\ fs' = (IF F!CanRename(fs, C(n), C(m)) THEN F!Rename(fs, C(n), C(m)) ELSE fs)
Next ==
    \/ Kind = "fs" /\ UNCHANGED t /\ \E n \in Texts : Create(n) /\ op' = <<"create", TextOf(n)>>
    \/ Kind = "fs" /\ UNCHANGED t /\ \E n \in Texts : Mkdir(n) /\ op' = <<"mkdir", TextOf(n)>>
    \/ Kind = "fs" /\ UNCHANGED t /\ \E n \in Texts : Node(n, <<"f", <<7, 8>>>>) /\ op' = <<"mknode", TextOf(n), <<"f", <<7, 8>>>>>>
    \/ Kind = "fs" /\ UNCHANGED t /\ \E n \in Texts : Remove(n) /\ op' = <<"remove", TextOf(n)>>
    \/ Kind = "fs" /\ UNCHANGED t /\ \E n, m \in Texts : Ren(n, m) /\ op' = <<"rename", TextOf(n), TextOf(m)>>
    \/ Kind = "fs" /\ UNCHANGED <<fs, t>> /\ \E n \in Texts, q \in {"about", "size", "list"} : op' = <<q, TextOf(n)>>
    \/ Kind = "text" /\ Len(t) < MaxLen /\ \E c \in Alphabet : t' = Append(t, c) /\ op' = <<"path", t'>> /\ UNCHANGED fs
    \/ Kind = "text" /\ UNCHANGED <<fs, t>> /\ \E c \in Alphabet : op' = <<"join", t, <<c, 98>>>>
    \/ Kind = "text" /\ UNCHANGED <<fs, t>> /\ \E c \in Alphabet : op' = <<"joinfile", t, <<c>>>>
Bound == Cardinality(DOMAIN fs) <= MaxNodes
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
IsTree == F!Tree(fs)
\* normalising twice changes nothing; a path is its parent joined with its name
Idem == F!Norm(F!Norm(t)) = F!Norm(t)
Apart == LET n == F!Norm(t) IN (F!IsAbs(n) /\ F!Name(n) # <<>>) => F!Resolve(F!Parent(n), F!Name(n)) = n
Apart2 == LET n == F!Norm(t) IN F!Parent(n) # <<>> => F!IsAbs(F!Parent(n)) = F!IsAbs(n)
\* nothing is lost by an operation that is refused, and renaming keeps the number of nodes or replaces one
C2(x) == F!Comps(x)
Keep == [][(op'[1] = "rename" /\ Kind = "fs") =>
            \/ fs' = fs
            \/ /\ C2(op'[2]) \notin DOMAIN fs'
               /\ fs'[C2(op'[3])] = fs[C2(op'[2])]
               /\ Cardinality(DOMAIN fs') = Cardinality(DOMAIN fs \ {C2(op'[3])})]_<<fs, t, op>>
=============================================================================
