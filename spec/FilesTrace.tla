----------------------------- MODULE FilesTrace -----------------------------
EXTENDS TraceLib, SequencesExt
\* fs: the tree below the scratch directory; tags: of the files that have any
VARIABLES fs, tags, l
F == INSTANCE Files
X == INSTANCE StrFn
Empty == [c \in {} |-> <<>>]
Init == fs = Empty /\ tags = Empty /\ l = 1
B(b) == IF b THEN 1 ELSE 0
Same == UNCHANGED <<fs, tags>>
TagsOf(c) == IF c \in DOMAIN tags THEN tags[c] ELSE <<>>
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Keep(t, f) == [c \in {d \in DOMAIN t : d \in DOMAIN f} |-> t[c]]
\* tags go with a file that is renamed
MoveTags(c, d) == LET gone == F!Under(fs, d) \cup F!Under(fs, c)
                      To(x) == d \o SubSeq(x, Len(c) + 1, Len(x))
                      come == {To(x) : x \in (F!Under(fs, c) \cap DOMAIN tags)}
                  IN  IF c = d THEN tags
                      ELSE [x \in (DOMAIN tags \ gone) \cup come |->
                              IF x \in come THEN tags[c \o SubSeq(x, Len(d) + 1, Len(x))] ELSE tags[x]]
Step(e) ==
    LET a == e.a
        c == F!Place(fs, F!Comps(a[1]))
        z == F!Final(fs, c)
    IN
    CASE e.op = "new" -> fs' = Empty /\ tags' = Empty
      [] e.op = "path" -> Same /\ e.r = <<F!Norm(a[1]), F!Name(a[1]), F!Parent(a[1]), F!Ext(a[1]), B(F!IsAbs(a[1]))>>
      [] e.op = "hidden" -> Same /\ e.r = <<B(F!IsHidden(a[1]))>>
      [] e.op \in {"join", "joinfile"} ->
            LET p == F!Resolve(a[1], a[2]) IN
            Same /\ e.r = <<p, F!Name(p), F!Parent(p), F!Ext(p), B(F!IsAbs(p))>>
      \* made by other means
      [] e.op = "mknode" -> fs' = F!With(fs, c, a[2]) /\ UNCHANGED tags
      [] e.op = "create" -> /\ e.r = <<B(F!CanCreate(fs, c))>> /\ UNCHANGED tags
                            /\ fs' = IF F!CanCreate(fs, c) THEN F!With(fs, c, <<"f", <<>>>>) ELSE fs
      [] e.op = "mkdir" -> /\ e.r = <<B(F!CanCreate(fs, c))>> /\ UNCHANGED tags
                           /\ fs' = IF F!CanCreate(fs, c) THEN F!With(fs, c, <<"d">>) ELSE fs
      [] e.op = "remove" -> /\ e.r = <<B(F!CanRemove(fs, c))>>
                            /\ fs' = IF F!CanRemove(fs, c) THEN F!Without(fs, {c}) ELSE fs
                            /\ tags' = Keep(tags, fs')
      [] e.op = "rename" ->
            LET d == F!Place(fs, F!Comps(a[2]))
                ok == F!CanRename(fs, c, d)
            IN  /\ e.r = <<B(ok), IF ok THEN F!Norm(a[2]) ELSE F!Norm(a[1])>>
                /\ fs' = IF ok THEN F!Rename(fs, c, d) ELSE fs
                /\ tags' = IF ok THEN MoveTags(c, d) ELSE tags
      [] e.op = "about" ->
            LET k == F!Kind(fs, c)
            IN  Same /\ e.r = <<B(F!Exists(fs, c)), B(k = "f"), B(k = "d"), B(k = "l"), B(k = "p"),
                                B(F!Exists(fs, c)), B(F!Exists(fs, c))>>
      [] e.op = "size" -> Same /\ e.r = <<IF F!Kind(fs, z) = "f" THEN Len(fs[z][2]) ELSE 0>>
      [] e.op = "list" ->
            /\ Same
            /\ IF F!Kind(fs, c) # "d" THEN e.r = <<>>
               ELSE /\ Len(e.r) = 1
                    /\ LET names == {x[Len(x)] : x \in F!Children(fs, c)}
                           got == [k \in 1..Len(e.r[1]) |-> F!Name(e.r[1][k])]
                       IN  /\ \A k \in 1..Len(got) : e.r[1][k] = F!Resolve(a[1], got[k])
                           /\ {got[k] : k \in 1..Len(got)} \ {<<46>>, <<46, 46>>} = names
                           /\ \A j, k \in 1..Len(got) : got[j] = got[k] => j = k
      [] e.op = "open" ->
            LET w == F!Way(fs, z, 1)
                miss == ~F!Has(fs, z)
            IN  /\ UNCHANGED tags
                /\ e.r = <<IF w = "miss" THEN "notfound" ELSE IF w = "bad" THEN "nodirectory"
                           ELSE IF miss /\ a[2] # "w" THEN "notfound" ELSE "ok">>
                /\ fs' = IF e.r[1] = "ok" /\ a[2] = "w" THEN F!With(fs, z, <<"f", <<>>>>) ELSE fs
      [] e.op = "mtime" -> Same /\ e.r = <<a[2], a[3]>>
      [] e.op = "compare" ->
            LET d == F!Place(fs, F!Comps(a[2]))
                x == F!Kind(fs, c) = "d"
                y == F!Kind(fs, d) = "d"
            IN  Same /\ e.r = <<IF x /\ ~y THEN -1 ELSE IF y /\ ~x THEN 1 ELSE Sign(X!Compare(F!Norm(a[1]), F!Norm(a[2])))>>
      [] e.op \in {"tags", "addtag", "deltag"} ->
            /\ UNCHANGED fs
            /\ IF e.r = <<"none">> THEN UNCHANGED tags
               ELSE LET t == TagsOf(z)
                        In(x) == \E k \in 1..Len(t) : t[k] = x
                        new == CASE e.op = "addtag" -> IF In(a[2]) THEN t ELSE Append(t, a[2])
                                 [] e.op = "deltag" -> SelectSeq(t, LAMBDA x : x # a[2])
                                 [] OTHER -> t
                        size == FoldLeft(LAMBDA n, x : n + 1 + Len(x), 0, new)
                    IN  IF e.r[1] = "failed"
                        \* the file system may refuse many tags: then nothing changes
                        THEN e.op = "addtag" /\ size > 2000 /\ e.r = <<"failed", t>> /\ UNCHANGED tags
                        ELSE
                        /\ e.r = <<"ok", new>>
                        /\ tags' = [x \in DOMAIN tags \cup {z} |-> IF x = z THEN new ELSE tags[x]]
Legal(e) ==
    LET c == F!Place(fs, F!Comps(e.a[1]))
        z == F!Final(fs, c)
    IN
    CASE e.op \in {"new", "path", "join", "joinfile"} -> TRUE
      [] e.op = "hidden" -> F!Comps(e.a[1]) # <<>>
      [] e.op = "mknode" -> F!CanCreate(fs, c)
      [] e.op = "create" -> c # <<>> /\ (F!Kind(fs, c) = "l" => F!Exists(fs, c))
      [] e.op = "rename" -> c # <<>> /\ F!Comps(e.a[2]) # <<>> /\ (F!Kind(fs, c) = "d" \/ F!NoSepAtEnd(e.a[2]))
      [] e.op = "open" -> z # <<>> /\ F!Kind(fs, z) \in {"", "f"} /\ F!None[1] \notin {z[k] : k \in 1..Len(z)}
      [] e.op = "mtime" -> c # <<>> /\ F!Kind(fs, c) \in {"f", "d"}
      [] e.op \in {"tags", "addtag", "deltag"} -> c # <<>> /\ F!Kind(fs, z) \in {"f", "d"}
      [] OTHER -> c # <<>>
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
        \* an empty name cannot be joined
        /\ IF e.op \in {"join", "joinfile"} /\ e.a[2] = <<>> THEN e.x = 1 /\ Same ELSE e.x = 0 /\ Step(e)
        /\ {e.o[k] : k \in 1..Len(e.o)} = {<<c, fs'[c]>> : c \in DOMAIN fs'}
    /\ l' = l + 1
Mem == (l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)) /\ Remember(<<fs, tags>>)
=============================================================================
