-------------------------------- MODULE MCZip --------------------------------
\* Every history of writing a few entries into two archives at the same time, then reading them.
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, NVar, MaxE, Names, Datas, Cuts
VARIABLES by, w, rd, op
Z == INSTANCE Zip
View == <<by, w, rd>>
V == 1..NVar
Name(n) == CASE n = "a" -> <<97>> [] n = "b" -> <<98, 47>> [] n = "u" -> <<228, 8364>> [] n = "pk" -> <<80, 75>>
Utf(n) == CASE n = "a" -> <<97>> [] n = "b" -> <<98, 47>> [] n = "u" -> <<195, 164, 226, 130, 172>> [] n = "pk" -> <<80, 75>>
Data(d) == CASE d = 0 -> <<>> [] d = 1 -> <<7>> [] d = 2 -> <<80, 75, 1, 2>> [] d = 3 -> <<0, 255, 128>>
Init == by = [v \in V |-> <<>>] /\ w = [v \in V |-> <<>>] /\ rd = [v \in V |-> FALSE] /\ op = <<"new">>
WOpen(v) == w[v] = <<>> /\ ~rd[v] /\ by[v] = <<>> /\ w' = [w EXCEPT ![v] = <<<<>>, <<>>>>] /\ UNCHANGED <<by, rd>>
Put(v, n) == w[v] # <<>> /\ w[v][2] = <<>> /\ Len(w[v][1]) < MaxE
             /\ w' = [w EXCEPT ![v] = <<Append(w[v][1], <<Utf(n), <<>>>>), <<<<>>>>>>] /\ UNCHANGED <<by, rd>>
Wr(v, d) == w[v] # <<>> /\ w[v][2] # <<>> /\ Len(w[v][2][1]) < 3
            /\ w' = [w EXCEPT ![v][2][1] = @ \o Data(d)] /\ UNCHANGED <<by, rd>>
Fin(v, d) == LET es == w[v][1] IN w' = [w EXCEPT ![v] = <<[es EXCEPT ![Len(es)] = <<@[1], d>>], <<>>>>] /\ UNCHANGED <<by, rd>>
CloseE(v) == w[v] # <<>> /\ w[v][2] # <<>> /\ Fin(v, w[v][2][1])
File(v, d) == w[v] # <<>> /\ w[v][2] = <<<<>>>> /\ Fin(v, Data(d))
WClose(v) == w[v] # <<>> /\ w[v][2] = <<>> /\ by' = [by EXCEPT ![v] = Z!Write(w[v][1])] /\ w' = [w EXCEPT ![v] = <<>>] /\ UNCHANGED rd
ROpen(v) == w[v] = <<>> /\ by[v] # <<>> /\ ~rd[v] /\ rd' = [rd EXCEPT ![v] = TRUE] /\ UNCHANGED <<by, w>>
Same == UNCHANGED <<by, w, rd>>
Next ==
    \/ \E v \in V : WOpen(v) /\ op' = <<"wopen", v>>
    \/ \E v \in V, n \in Names : Put(v, n) /\ op' = <<"put", v, Name(n)>>
    \/ \E v \in V, d \in Datas : Wr(v, d) /\ op' = <<"write", v, Data(d), 0, Len(Data(d))>>
    \/ \E v \in V, d \in Datas : File(v, d) /\ op' = <<"writefile", v, Data(d)>>
    \/ \E v \in V : CloseE(v) /\ op' = <<"closeentry", v>>
    \/ \E v \in V : WClose(v) /\ op' = <<"wclose", v>>
    \/ \E v \in V : ROpen(v) /\ op' = <<"ropen", v, v % 2>>
    \/ \E v \in V, n \in Names : rd[v] /\ Same /\ op' = <<"find", v, Name(n)>>
    \/ \E v \in V, k \in 1..(MaxE + 1) : rd[v] /\ Same /\ op' = <<"read", v, k>>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
\* what is written is well-formed and read back as it was
Format == \A v \in V : by[v] # <<>> => Z!WellFormed(by[v])
RoundTrip == [][\A v \in V : by'[v] # by[v] => Z!Contents(by'[v]) = w[v][1]]_<<by, w, rd, op>>
\* an archive from which any bytes at the end are missing is not taken for a whole one
Truncated == Cuts => \A v \in V : by[v] # <<>> => \A k \in 1..(Len(by[v]) - 1) : ~Z!Parse(SubSeq(by[v], 1, k)).ok
=============================================================================
