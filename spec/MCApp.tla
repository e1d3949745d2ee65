-------------------------------- MODULE MCApp -------------------------------
\* All histories of two runs of two applications that share a home; all choices of a catalog.
EXTENDS Integers, Sequences, FiniteSets, TLC, Walk
CONSTANTS Emit, Kind, Slots, NB, NV
VARIABLES disk, res, runs, op
A == INSTANCE App
P == INSTANCE Prefs
View == <<disk, res, runs>>
None == [b \in {} |-> <<>>]
Bundles == IF NB = 1 THEN {<<97>>} ELSE IF NB = 2 THEN {<<>>, <<97>>} ELSE {<<>>, <<97>>, <<97, 46, 98>>}
Key == <<107>>
Values == {<<48 + i>> : i \in 1..NV}
DE == <<100, 101, 95, 68, 69>>
FR == <<102, 114, 95, 70, 82>>
Utf == <<46, 85, 84, 70, 45, 56>>
C == <<67>>
Plain == <<C, <<>>, <<>>, <<>>>>
\* settings of the environment: LC_ALL, LC_MESSAGES, LANG, LC_NUMERIC
Envs == IF Kind = "pick" THEN {<<DE \o Utf, FR, C, <<>>>>, <<<<>>, DE \o Utf, FR \o Utf, C>>, <<<<>>, <<>>, DE \o Utf, FR \o Utf>>, <<<<>>, <<>>, <<>>, DE \o Utf>>} ELSE {Plain}
Files == {<<46>> \o DE \o <<46, 109, 111>>, DE \o <<46, 109, 111>>, <<46, 100, 101, 46, 109, 111>>, <<100, 101, 46, 109, 111>>, <<97, 46, 100, 101, 46, 109, 111>>}
\* the catalog tells its own name, and what an error is called
Told(f) == [x \in {Key} |-> f]
Alive == {s \in Slots : runs[s] # <<>>}
Init == disk = None /\ res = None /\ runs = <<<<>>, <<>>>> /\ op = <<"new">>
Start(s, b, e, h) == runs[s] = <<>> /\ runs' = [runs EXCEPT ![s] = <<A!Started(disk, res, b, e, <<117>>, h)>>] /\ UNCHANGED <<disk, res>>
Change(s, r) == runs' = [runs EXCEPT ![s] = <<r>>] /\ UNCHANGED <<disk, res>>
Same == UNCHANGED <<disk, res, runs>>
Life == Kind = "life"
Log == Kind = "log"
Choice == Kind = "pick"
Next ==
    \/ Life /\ \E s \in Slots, b \in Bundles : \E h \in {0, 1} : Start(s, b, Plain, h) /\ op' = <<"start", s, b, Plain, <<117>>, h>>
    \/ (Log \/ Choice) /\ \E s \in Slots, b \in Bundles : \E e \in Envs : Start(s, b, e, 1) /\ op' = <<"start", s, b, e, <<117>>, 1>>
    \/ Life /\ \E s \in Alive : runs[s][1].prefs # <<>> /\ \E v \in Values : Change(s, [runs[s][1] EXCEPT !.prefs = <<P!Put(@[1], Key, v)>>]) /\ op' = <<"set", s, Key, v>>
    \/ Life /\ Same /\ \E s \in Alive : runs[s][1].prefs # <<>> /\ op' = <<"get", s, Key>>
    \/ Life /\ Same /\ \E s \in Alive : op' = <<"who", s>>
    \/ Life /\ \E s \in Alive : disk' = A!Saved(disk, runs[s][1]) /\ UNCHANGED <<res, runs>> /\ op' = <<"save", s>>
    \/ \E s \in Alive : disk' = A!Saved(disk, runs[s][1]) /\ runs' = [runs EXCEPT ![s] = <<>>] /\ UNCHANGED res /\ op' = <<"quit", s>>
    \/ Life /\ \E s \in Alive : runs' = [runs EXCEPT ![s] = <<>>] /\ UNCHANGED <<disk, res>> /\ op' = <<"kill", s>>
    \/ Log /\ \E s \in Alive : runs[s][1].alive = 0 /\ Change(s, [runs[s][1] EXCEPT !.alive = 2]) /\ op' = <<"auto", s, 2>>
    \/ Log /\ \E s \in Alive : Change(s, [runs[s][1] EXCEPT !.alive = 0]) /\ op' = <<"drain", s>>
    \/ Log /\ \E s \in Alive, x \in {0, 1} : Change(s, [runs[s][1] EXCEPT !.date = x]) /\ op' = <<"date", s, x>>
    \/ Log /\ \E s \in Alive, x \in 0..3 : Change(s, [runs[s][1] EXCEPT !.label = x]) /\ op' = <<"label", s, x>>
    \/ Log /\ Same /\ \E s \in Alive, x \in 0..3 : op' = <<"log", s, x, <<104, 105>>>>
    \/ Log /\ Same /\ \E s \in Alive, x \in 0..3 : runs[s][1].date = 0 /\ op' = <<"logs", s, 3, 10, x>>
    \/ Log /\ Same /\ \E s \in Alive : op' = <<"err", s>>
    \/ Log /\ Same /\ \E s \in Alive : op' = <<"places", s>>
    \/ Choice /\ Alive = {} /\ UNCHANGED <<disk, runs>> /\ \E f \in Files \ DOMAIN res : res' = P!Put(res, f, Told(f)) /\ op' = <<"res", f, <<<<Key, f>>>>>>
    \/ Choice /\ Same /\ \E s \in Alive : op' = <<"tr", s, Key>>
    \/ Choice /\ Same /\ \E s \in Alive : op' = <<"who", s>>
    \/ Choice /\ Same /\ \E s \in Alive, n \in {<<>>, <<97>>}, g \in {<<>>, DE, <<100, 101, 45, 65, 84>>, <<100, 101>>} : op' = <<"pick", s, n, g, Key>>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
\* settings are kept by saving only, as they are, and under the bundle of the run
KeptP == [][\A b \in DOMAIN disk \cup DOMAIN disk' : (b \notin DOMAIN disk \/ b \notin DOMAIN disk' \/ disk'[b] # disk[b]) =>
              /\ op'[1] \in {"save", "quit"} /\ b \in DOMAIN disk'
              /\ LET r == runs[op'[2]][1] IN b = r.bundle /\ r.home = 1 /\ disk'[b] = r.prefs[1]]_<<disk, runs, op>>
\* a run starts with what was kept
FoundP == [][op'[1] = "start" => LET r == runs'[op'[2]][1] IN
              (r.bundle = <<>> <=> r.prefs = <<>>) /\ ((r.bundle # <<>> /\ r.home = 1 /\ r.bundle \in DOMAIN disk) => r.prefs = <<disk[r.bundle]>>)]_<<disk, runs, op>>
\* one run does not change another one
ApartP == [][\A s \in Slots : runs'[s] # runs[s] => op'[2] = s]_<<disk, runs, op>>
\* a run without a bundle is not translated; the closest catalog is taken
Choose == \A s \in Alive : LET r == runs[s][1] IN
    /\ r.bundle = <<>> => r.cat = P!Empty
    /\ r.cat # P!Empty => r.cat[Key] \in {A!Candidates(<<>>, A!Language(r.env))[k] : k \in 1..4}
Lang == A!Language(Plain) = C /\ A!Language(<<<<>>, DE \o Utf, C, C>>) = DE /\ A!Language(<<<<>>, <<>>, <<>>, DE>>) = C /\ A!Region(DE) = <<100, 101>> /\ A!Region(C) = C
\* the log in two orders of two threads, and what is not an order of theirs
Two == Kind = "log" => LET r == A!Started(None, None, <<>>, Plain, <<>>, 1)
           m(t, j) == A!Message(r, 1, A!Numbered(t, j))
       IN  /\ A!Together(r, 2, 2, 1, m(1, 1) \o m(2, 1) \o m(2, 2) \o m(1, 2)) /\ A!Together(r, 2, 2, 1, m(2, 1) \o m(2, 2) \o m(1, 1) \o m(1, 2))
           /\ ~A!Together(r, 2, 2, 1, m(1, 2) \o m(2, 1) \o m(2, 2) \o m(1, 1)) /\ ~A!Together(r, 2, 2, 1, m(1, 1) \o m(2, 1) \o m(2, 2))
           /\ ~A!Together(r, 2, 2, 1, m(1, 1) \o m(2, 1) \o m(2, 2) \o m(1, 2) \o m(1, 2))
=============================================================================
