------------------------------- MODULE MCPar --------------------------------
\* Kind = "run": two threads that call whatever they may, in every order. "pairs": every two calls at the same time, to be run under
\* every schedule by the code.
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, Kind, MaxOps, Preempt, Runs
VARIABLES s, did, next, op
P == INSTANCE Par
View == <<s, did, next>>
Given == <<71, 114, 252, 110, 32, 97, 110, 97, 110, 97, 115>>
\* keys that share a place in a table
Table == <<<<<<97>>, 7>>, <<<<104>>, 8>>, <<<<111>>, 9>>>>
Text == <<72, 228, 117, 115, 49, 32>>
Doc == <<60, 97, 62, 60, 98, 32, 99, 61, 34, 49, 34, 47, 62, 120, 60, 47, 97, 62>>
Samples == <<
    <<"set", Text>>, <<"app", Text>>, <<"num", 1, <<1, 0, 2, 4>>>>, <<"up">>, <<"low">>, <<"trim">>, <<"gcopy">>, <<"get">>,
    <<"put", <<97>>, 3>>, <<"del", <<97>>>>, <<"look", <<97>>>>, <<"roman", 1994>>, <<"roman", 48>>, <<"hex", 0, <<4, 8, 8, 7, 9>>>>,
    <<"put", <<104>>, 4>>, <<"look", <<104>>>>, <<"toint", <<45, 49, 55>>>>, <<"toint", <<49, 120>>>>, <<"toint", <<50, 48, 48, 48, 48>>>>, <<"dbl", 1, 12, 3, 2, 2, 0>>, <<"dbl", 0, 7, 1, 1, 3, 1>>,
    <<"enc64", <<1, 200, 33, 7>>>>, <<"enc64", <<9, 8, 7, 6, 5, 4, 3, 2>>>>, <<"dec64", <<81, 85, 74, 68>>>>, <<"dec64", <<81, 85, 74, 68, 81, 85, 74, 81>>>>, <<"crc", 7, <<1>>>>, <<"crc", 0, <<49, 50, 51>>>>,
    <<"enc", "UTF-8", Text>>, <<"enc", "Windows-1252", Text>>, <<"enc", "UTF-16BE", Text>>, <<"dec", "UTF-8", <<65, 195, 164, 66>>>>, <<"dec", "MacRoman", <<65, 138>>>>,
    <<"dec", "UTF-8", <<65, 195>>>>, <<"dec", "UTF-8", <<97, 98, 99, 226, 130, 172>>>>, <<"dec", "MacRoman", <<97, 98, 99>>>>,
    <<"dec", "Windows-1252", <<97, 228, 98>>>>, <<"dec", "Windows-1252", <<99, 100, 101, 102, 246>>>>, <<"dec", "UTF-16LE", <<97, 0, 98, 1>>>>, <<"dec", "UTF-16LE", <<99, 0>>>>,
    <<"enc", "UTF-8", <<97>>>>, <<"enc", "Windows-1252", <<98>>>>, <<"enc", "MacRoman", <<98, 228>>>>, <<"enc", "MacRoman", Text>>,
    <<"hex", 0, <<1, 5>>>>, <<"roman", 3>>, <<"xml", <<60, 97, 47, 62>>>>, <<"zip", <<1>>>>, <<"mul", <<5, 6, 7, 8>>>>, <<"urlenc", <<252, 223, 120, 121>>>>,
    <<"urlenc", <<97, 32, 252>>>>, <<"date", <<100, 46, 77, 46, 121, 121, 121, 121>>, 19000, 3600000>>, <<"iso", -400, 86399999>>, <<"iso", 20000, 5>>,
    <<"zip", <<7, 7, 7, 7, 7, 7, 1, 2, 3>>>>, <<"xml", Doc>>, <<"mul", <<1, 2, 3, 4>>>>,
    <<"gup">>, <<"gsub", 2, 6>>, <<"gfind", <<97, 110, 97>>>>, <<"gsame", Given>>, <<"glook", <<97>>>>, <<"glook", <<104>>>>, <<"glook", <<111>>>>, <<"gdate", 19000, 12345>>, <<"gdate", -3000, 86399999>>, <<"tr", <<79, 75>>>>,
    <<"log", 3, <<65, 66>>>>, <<"log", 3, <<67, 68, 69>>>>, <<"log", 2, <<70>>>>, <<"log", 1, <<71>>>>, <<"err">> >>
Init == s = P!Start(Given, Table, 2) /\ did = [t \in 1..2 |-> <<>>] /\ next = 1 /\ op = <<"new">>
Calls == {<<"app", <<97>>>>, <<"up">>, <<"get">>, <<"put", <<97>>, 3>>, <<"look", <<97>>>>, <<"gup">>, <<"log", 3, <<65>>>>, <<"log", 3, <<66>>>>, <<"log", 2, <<67>>>>, <<"err">>}
Done == Len(did[1]) + Len(did[2])
Call(t, c) == s' \in P!Vis(s, <<"call", t, c>>) /\ did' = [did EXCEPT ![t] = Append(@, <<c, 0>>)]
Go(t) == s' \in P!TauT(s, t) /\ did' = [did EXCEPT ![t][Len(did[t])] = <<@[1], 1>>]
Ret(t) == s.th[t][1] = "fin" /\ s' \in P!Vis(s, <<"ret", t, s.th[t][2]>>) /\ UNCHANGED did
Next ==
    \/ Kind = "run" /\ Done < MaxOps /\ UNCHANGED next /\ \E t \in 1..2, c \in Calls : Call(t, c) /\ op' = <<"call">>
    \/ Kind = "run" /\ UNCHANGED next /\ \E t \in 1..2 : Go(t) /\ op' = <<"tau">>
    \/ Kind = "run" /\ UNCHANGED next /\ \E t \in 1..2 : Ret(t) /\ op' = <<"ret">>
    \/ Kind = "pairs" /\ next = 1 /\ next' = 2 /\ UNCHANGED <<s, did>> /\ \E i, j \in DOMAIN Samples : i <= j /\ op' = <<"par", Given, Table, <<<<Samples[1], Samples[i]>>, <<Samples[j]>>>>, Preempt, Runs>>
Bound == TRUE
EmitT == (Emit /\ Kind = "pairs") => PrintStep(<<1>>, op', <<1>>)
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(<<1>>)
\* ---- what a thread has and is told follows from its own calls alone
RECURSIVE AloneFrom(_, _, _)
AloneFrom(w, v, cs) ==
    IF cs = <<>> \/ cs[1][2] = 0 THEN <<w, v>>
    ELSE IF cs[1][1][1] \in {"log", "err"} THEN AloneFrom(w, <<>>, Tail(cs))
    ELSE LET r == P!Own(s, w, cs[1][1]) IN AloneFrom(r.w, r.v, Tail(cs))
Alone == \A t \in 1..2 : LET x == AloneFrom(P!Fresh, <<>>, did[t]) IN
    /\ s.own[t] = x[1]
    /\ (s.th[t][1] = "fin" /\ did[t][Len(did[t])][1][1] \notin {"log", "err"}) => s.th[t][2] = x[2]
\* every line comes once, and those of a thread in its order
Lines(t) == LET done == SelectSeq(did[t], LAMBDA x : x[2] = 1 /\ x[1][1] = "log") IN [i \in DOMAIN done |-> P!LineOf(done[i][1][2], done[i][1][3])]
RECURSIVE Shuffled(_, _, _)
Shuffled(a, b, c) ==
    IF c = <<>> THEN a = <<>> /\ b = <<>>
    ELSE (a # <<>> /\ a[1] = c[1] /\ Shuffled(Tail(a), b, Tail(c))) \/ (b # <<>> /\ b[1] = c[1] /\ Shuffled(a, Tail(b), Tail(c)))
Printed == Shuffled(Lines(1), Lines(2), s.out)
\* the last error is that of the last error line
Errors == SelectSeq(s.out, LAMBDA x : Len(x) > 8 /\ x[7] = 51 /\ x[8] = 49)
LastError == IF Errors = <<>> THEN s.err = <<>> ELSE Errors[Len(Errors)] = P!LineOf(3, s.err)
=============================================================================
