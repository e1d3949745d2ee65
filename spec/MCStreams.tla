------------------------------ MODULE MCStreams ------------------------------
\* Every history of a file stream and a memory stream.
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, Kinds, MaxD, MaxPos, Chunks, Steps
VARIABLES disk, st, op
S == INSTANCE Streams
View == <<disk, st>>
P == 1..1
V == 1..Len(Kinds)
Chunk(c) == CASE c = 0 -> <<>> [] c = 1 -> <<7>> [] c = 2 -> <<0, 255>>
Init == /\ disk = [p \in P |-> <<>>] /\ op = <<"new">>
        /\ st = [v \in V |-> S!None]
Same == UNCHANGED <<disk, st>>
Bind(v) == st[v].k = "none" /\ Kinds[v] = "file" /\ st' = [st EXCEPT ![v] = S!Closed(1)] /\ UNCHANGED disk
BindM(v) == st[v].k = "none" /\ Kinds[v] = "mem" /\ st' = [st EXCEPT ![v] = S!Mem(<<1, 2, 3>>)] /\ UNCHANGED disk
IsF(v) == st[v].k = "file"
IsOpen(v) == st[v].mode # ""
Create(v) == IsF(v) /\ ~IsOpen(v) /\ disk' = (IF disk[1] = <<>> THEN [disk EXCEPT ![1] = <<<<>>>>] ELSE disk) /\ UNCHANGED st
Others(v) == {u \in V \ {v} : IsF(u) /\ IsOpen(u)}
Open(v, m) ==
    /\ IsF(v) /\ ~IsOpen(v)
    /\ IF m = "r" THEN \A u \in Others(v) : st[u].mode = "r" ELSE Others(v) = {}
    /\ IF S!CanOpen(disk, st[v], m)
       THEN /\ st' = [st EXCEPT ![v] = [@ EXCEPT !.mode = m, !.pos = 0, !.last = ""]]
            /\ disk' = IF m = "w" THEN [disk EXCEPT ![1] = <<<<>>>>] ELSE disk
       ELSE Same
Read(v, n) == LET s == st[v]
                  g == S!Got(disk, s, n) IN
    /\ IsOpen(v) /\ (IsF(v) => s.last # "write") /\ UNCHANGED disk
    /\ st' = [st EXCEPT ![v] = [@ EXCEPT !.pos = s.pos + Len(g), !.last = "read"]]
Write(v, b) == LET s == st[v]
                   n == S!Room(s, b)
                   c == SubSeq(b, 1, n) IN
    /\ IsOpen(v) /\ (IsF(v) => s.last # "read") /\ (IsF(v) => s.pos + n <= MaxD)
    /\ disk' = IF IsF(v) /\ n > 0 THEN [disk EXCEPT ![1] = <<S!Put(@[1], s.pos, c)>>] ELSE disk
    /\ st' = [st EXCEPT ![v] = [@ EXCEPT !.pos = s.pos + n, !.last = "write", !.mem = IF s.k = "mem" THEN S!Put(@, s.pos, c) ELSE @]]
Go(v, to) == /\ IsOpen(v) /\ to <= MaxPos /\ UNCHANGED disk
             /\ st' = IF S!Reaches(st[v], to) THEN [st EXCEPT ![v] = [@ EXCEPT !.pos = to, !.last = ""]] ELSE st
Close(v) == st[v].k # "none" /\ UNCHANGED disk
            /\ st' = [st EXCEPT ![v] = [@ EXCEPT !.pos = 0, !.mode = IF @ = "" \/ IsF(v) THEN "" ELSE "rw", !.last = ""]]
Size(v) == (st[v].k = "mem" \/ (IsF(v) /\ \A u \in V : IsF(u) => st[u].mode \in {"", "r"})) /\ Same
Next ==
    \/ \E v \in V : Bind(v) /\ op' = <<"file", v, 1>>
    \/ \E v \in V : BindM(v) /\ op' = <<"mem", v, <<1, 2, 3>>>>
    \/ \E v \in V : Create(v) /\ op' = <<"create", v>>
    \/ \E v \in V, m \in {"r", "w", "rw"} : Open(v, m) /\ op' = <<"open", v, m>>
    \/ \E v \in V, n \in Steps : Read(v, n) /\ op' = <<"read", v, n>>
    \/ \E v \in V, n \in Steps : Read(v, n) /\ op' = <<"readfully", v, n>>
    \/ \E v \in V, c \in Chunks : Write(v, Chunk(c)) /\ op' = <<"write", v, Chunk(c)>>
    \/ \E v \in V, n \in -1..MaxPos : Go(v, n) /\ op' = <<"seek", v, n>>
    \/ \E v \in V, n \in {-2, -1, 1} : Go(v, st[v].pos + n) /\ op' = <<"move", v, n>>
    \/ \E v \in V : Close(v) /\ op' = <<"close", v>>
    \/ \E v \in V : Size(v) /\ op' = <<"size", v>>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
Pos == \A v \in V : st[v].pos >= 0 /\ (st[v].k = "mem" => st[v].pos <= Len(st[v].mem))
Fixed == \A v \in V : st[v].k = "mem" => Len(st[v].mem) = 3
\* what was written is what is read from the same place
Back == [][\A v \in V : (op'[1] = "write" /\ op'[2] = v) =>
            LET n == st'[v].pos - st[v].pos IN
            SubSeq(S!Data(disk', st'[v]), st[v].pos + 1, st'[v].pos) = SubSeq(op'[3], 1, n)]_<<disk, st, op>>
\* nothing else changes
Rest == [][\A v \in V : (op'[1] = "write" /\ op'[2] = v) =>
            LET a == S!Data(disk, st[v])
                b == S!Data(disk', st'[v]) IN
            \A k \in 1..Len(a) : (k <= st[v].pos \/ k > st'[v].pos) => b[k] = a[k]]_<<disk, st, op>>
KindsFF == <<"file", "file">>
KindsF == <<"file">>
KindsM == <<"mem">>
=============================================================================
