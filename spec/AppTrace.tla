------------------------------ MODULE AppTrace ------------------------------
EXTENDS TraceLib, FiniteSets
\* disk: the settings kept, by bundle; res: the catalogs installed, by file name; runs: two runs, each <<>> or one record; errs: the
\* last errors they remember
VARIABLES disk, res, runs, errs, l
A == INSTANCE App
P == INSTANCE Prefs
None == [b \in {} |-> <<>>]
Idle == <<<<>>, <<>>>>
Init == disk = None /\ res = None /\ runs = Idle /\ errs = Idle /\ l = 1
B(b) == IF b THEN 1 ELSE 0
RECURSIVE MapOf(_, _, _)
MapOf(m, q, k) == IF k > Len(q) THEN m ELSE MapOf(P!Put(m, q[k][1], q[k][2]), q, k + 1)
Step(e) ==
    LET a == e.a
        s == a[1]
        run == runs[s][1]
        Run(x) == runs' = [runs EXCEPT ![s] = <<x>>]
        Err(x) == errs' = [errs EXCEPT ![s] = x]
        Kept == IF run.home = 1 \/ run.prefs = <<>> THEN e.r[1] = errs[s] ELSE e.r[1] # <<>>
    IN
    CASE e.op = "new" -> disk' = None /\ res' = None /\ runs' = Idle /\ errs' = Idle
      [] e.op = "res" -> res' = P!Put(res, a[1], MapOf(None, a[2], 1)) /\ UNCHANGED <<disk, runs, errs>>
      [] e.op = "unres" -> res' = [f \in DOMAIN res \ {a[1]} |-> res[f]] /\ UNCHANGED <<disk, runs, errs>>
      [] e.op = "start" -> /\ Run(A!Started(disk, res, a[2], a[3], a[4], a[5])) /\ Err(e.r[1]) /\ UNCHANGED <<disk, res>>
      [] e.op = "kill" -> runs' = [runs EXCEPT ![s] = <<>>] /\ UNCHANGED <<disk, res, errs>>
      \* nothing is left of the objects of the pool
      [] e.op = "quit" -> /\ disk' = A!Saved(disk, run) /\ e.r = <<0, 0>>
                          /\ runs' = [runs EXCEPT ![s] = <<>>] /\ UNCHANGED <<res, errs>>
      [] e.op = "save" -> disk' = A!Saved(disk, run) /\ Kept /\ Err(e.r[1]) /\ UNCHANGED <<res, runs>>
      [] e.op = "set" -> Run([run EXCEPT !.prefs = <<P!Put(run.prefs[1], a[2], a[3])>>]) /\ UNCHANGED <<disk, res, errs>>
      [] e.op = "get" -> UNCHANGED <<disk, res, runs, errs>> /\ e.r = <<P!Get(run.prefs[1], a[2]), B(P!Has(run.prefs[1], a[2]))>>
      [] e.op = "who" -> UNCHANGED <<disk, res, runs, errs>> /\ e.r = <<run.bundle, run.user, B(run.prefs # <<>>), A!Language(run.env)>>
      [] e.op = "tr" -> UNCHANGED <<disk, res, runs, errs>> /\ e.r = <<P!Translate(run.cat, a[2])>>
      [] e.op = "pick" -> /\ UNCHANGED <<disk, res, runs, errs>>
                          /\ LET lang == IF a[3] = <<>> THEN A!Language(run.env) ELSE A!Joined(a[3])
                             IN  e.r = <<B(A!Found(res, a[2], lang)), P!Translate(A!Pick(res, a[2], lang), a[4])>>
      [] e.op = "date" -> Run([run EXCEPT !.date = a[2]]) /\ UNCHANGED <<disk, res, errs>>
      [] e.op = "label" -> Run([run EXCEPT !.label = a[2]]) /\ UNCHANGED <<disk, res, errs>>
      [] e.op = "log" -> /\ UNCHANGED <<disk, res, runs>> /\ A!Logged(run, a[2], a[3], e.r[1], e.r[2], e.r[3])
                         /\ errs' = IF a[2] = 3 THEN [errs EXCEPT ![s] = a[3]] ELSE errs
      [] e.op = "logs" -> /\ UNCHANGED <<disk, res, runs>> /\ A!Together(run, a[2], a[3], a[4], e.r[1]) /\ Err(e.r[2])
                          /\ IF a[4] = 3 THEN \E t \in 1..a[2] : e.r[2] = A!Numbered(t, a[3]) ELSE e.r[2] = errs[s]
      [] e.op = "err" -> UNCHANGED <<disk, res, runs, errs>> /\ e.r = <<errs[s]>>
      [] e.op = "auto" -> Run([run EXCEPT !.alive = @ + a[2]]) /\ UNCHANGED <<disk, res, errs>> /\ e.r = <<run.alive + a[2]>>
      [] e.op = "drain" -> Run([run EXCEPT !.alive = 0]) /\ UNCHANGED <<disk, res, errs>> /\ e.r = <<0>>
      [] e.op = "places" -> UNCHANGED <<disk, res, runs, errs>> /\ e.r = <<1, 1, 1, 1, 1, 1>>
      [] e.op = "library" -> UNCHANGED <<disk, res, runs, errs>> /\ e.r = <<1, 1, 1, 0, 0>>
Next == l <= Len(Trace) /\ Trace[l].x = 0 /\ Step(Trace[l]) /\ l' = l + 1
Ascii(t) == \A k \in 1..Len(t) : t[k] \in 32..126
Legal(e) == LET s == e.a[1] IN
    CASE e.op \in {"new", "res", "unres"} -> TRUE
      [] e.op = "start" -> runs[s] = <<>>
      [] e.op \in {"set", "get"} -> runs[s] # <<>> /\ runs[s][1].prefs # <<>>
      [] e.op \in {"save", "quit"} -> runs[s] # <<>> /\ (runs[s][1].prefs # <<>> => P!Storable(runs[s][1].prefs[1]))
      [] e.op = "log" -> runs[s] # <<>> /\ Ascii(e.a[3])
      [] e.op = "logs" -> runs[s] # <<>> /\ runs[s][1].date = 0
      [] OTHER -> runs[s] # <<>>
Mem == (l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)) /\ Remember(<<disk, runs, errs>>)
=============================================================================
