--------------------------------- MODULE App --------------------------------
\* The life of an application: what its runs find when they start, keep while they run and leave when they end.
EXTENDS Integers, Sequences, FiniteSets
P == INSTANCE Prefs
S == INSTANCE StrFn
None == <<>>

\* ---- the language: the first of the settings that is made, without the encoding; regions are joined with "_"
Before(t, c) == LET at == {k \in 1..Len(t) : t[k] = c} IN IF at = {} THEN t ELSE SubSeq(t, 1, (CHOOSE k \in at : \A j \in at : k <= j) - 1)
FirstOf(q) == LET at == {k \in 1..Len(q) : q[k] # <<>>} IN IF at = {} THEN <<67>> ELSE q[CHOOSE k \in at : \A j \in at : k <= j]
Joined(t) == [k \in 1..Len(t) |-> IF t[k] = 45 THEN 95 ELSE t[k]]
Language(env) == Joined(Before(FirstOf(SubSeq(env, 1, 3)), 46))
\* ---- the catalog: the one of that name and region, of the region, of that name and the language, of the language
Region(t) == Before(t, 95)
Candidates(name, lang) == LET mo == <<46, 109, 111>> IN
    <<name \o <<46>> \o lang \o mo, lang \o mo, name \o <<46>> \o Region(lang) \o mo, Region(lang) \o mo>>
Found(res, name, lang) == \E k \in 1..4 : Candidates(name, lang)[k] \in DOMAIN res
Pick(res, name, lang) ==
    LET c == Candidates(name, lang)
        at == {k \in 1..4 : c[k] \in DOMAIN res}
    IN  IF at = {} THEN P!Empty ELSE res[c[CHOOSE k \in at : \A j \in at : k <= j]]

\* ---- a run. prefs: <<map>>, or None without a bundle; alive: autoreleased objects; home: is there a place for settings
Started(disk, res, bundle, env, user, home) ==
    [bundle |-> bundle, env |-> env, user |-> user, home |-> home, alive |-> 0, date |-> 1, label |-> 0,
     prefs |-> IF bundle = <<>> THEN None ELSE <<IF home = 1 /\ bundle \in DOMAIN disk THEN disk[bundle] ELSE P!Empty>>,
     cat |-> IF bundle = <<>> THEN P!Empty ELSE Pick(res, <<>>, Language(env))]
Saved(disk, run) == IF run.prefs = None \/ run.home = 0 THEN disk
                    ELSE [b \in DOMAIN disk \cup {run.bundle} |-> IF b = run.bundle THEN run.prefs[1] ELSE disk[b]]

\* ---- the log: a line for every message that is more than a debugging aid
Label(run, level) ==
    IF level < run.label THEN <<>>
    ELSE P!Translate(run.cat, CASE level = 3 -> <<69, 82, 82, 79, 82, 58, 32>> [] level = 2 -> <<87, 65, 82, 78, 73, 78, 71, 58, 32>>
                                [] OTHER -> <<73, 78, 70, 79, 58, 32>>)
Colour(level) == CASE level = 3 -> <<27, 91, 49, 109, 27, 91, 51, 49, 109>> [] level = 2 -> <<27, 91, 49, 109, 27, 91, 51, 51, 109>> [] OTHER -> <<>>
Reset(level) == IF level >= 2 THEN <<27, 91, 48, 109>> ELSE <<>>
Message(run, level, text) == Colour(level) \o Label(run, level) \o text \o Reset(level) \o <<10>>
\* what is written for a message between two times
Logged(run, level, text, o, from, to) ==
    IF level = 0 THEN o = <<>>
    ELSE IF run.date = 0 THEN o = Message(run, level, text)
    ELSE /\ Len(o) > 27 /\ o[1] = 91 /\ SubSeq(o, 26, 27) = <<93, 32>>
         /\ LET d == SubSeq(o, 2, 25) IN S!Compare(from, d) <= 0 /\ S!Compare(d, to) <= 0
         /\ SubSeq(o, 28, Len(o)) = Message(run, level, text)
\* many threads at once: every message is a line of its own, those of a thread in their order
Numbered(t, j) == <<109>> \o P!Dec(t) \o <<46>> \o P!Dec(j) \o [k \in 1..((t * 7 + j * 3) % 40) |-> 120]
RECURSIVE LinesOf(_, _)
LinesOf(o, from) ==
    IF from > Len(o) THEN <<>>
    ELSE LET ends == {k \in from..Len(o) : o[k] = 10}
             n == IF ends = {} THEN Len(o) ELSE CHOOSE k \in ends : \A j \in ends : k <= j
         IN  <<SubSeq(o, from, n)>> \o LinesOf(o, n + 1)
Together(run, T, n, level, o) ==
    IF level = 0 THEN o = <<>>
    ELSE \E q \in {LinesOf(o, 1)} : \E own \in {[t \in 1..T |-> [j \in 1..n |-> Message(run, level, Numbered(t, j))]]} :
         /\ Len(q) = T * n
         /\ \A t \in 1..T : \E m \in {{own[t][j] : j \in 1..n}} : SelectSeq(q, LAMBDA x : x \in m) = own[t]
=============================================================================
