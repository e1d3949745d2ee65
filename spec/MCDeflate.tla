------------------------------ MODULE MCDeflate -----------------------------
\* All small streams of stored, fixed and (two shapes of) dynamic blocks, valid or not, and their prefixes.
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, MaxOps, Lits, Cuts
Copies == {<<3, 1>>, <<4, 2>>, <<258, 1>>, <<-1, 286>>, <<-1, 30>>}
VARIABLES st, n, op
D == INSTANCE Deflate
View == <<st, n>>
Init == st = D!Empty /\ n = 0 /\ op = <<"new">>
Do(o) == D!Legal(st, o) /\ st' = D!Apply(st, o) /\ n' = n + 1 /\ op' = o
\* literals 97, 98, lengths 3 and 4 with two distances; literal 0 only, no distance
Dyn0(f) == <<"dyn", f, 259, 2, 18, [k \in 1..19 |-> IF k = 19 THEN 1 ELSE IF k \in {2, 3, 4} THEN (IF k = 2 THEN 2 ELSE 3) ELSE 0],
          <<<<18, 97>>, <<2>>, <<3>>, <<18, 138>>, <<18, 19>>, <<2>>, <<3>>, <<2>>, <<1>>, <<1>>>>>>
Dyn1(f) == <<"dyn", f, 257, 1, 18, [k \in 1..19 |-> IF k = 19 THEN 1 ELSE IF k = 2 THEN 2 ELSE IF k \in {1, 3} THEN 3 ELSE 0],
          <<<<1>>, <<18, 138>>, <<18, 117>>, <<1>>, <<0>>>>>>
Next ==
    \/ n = 0 /\ \E h \in {<<120, 1>>, <<120, 218>>, <<8, 29>>, <<120, 2>>, <<121, 1>>, <<136, 28>>, <<120, 32>>} : Do(<<"header", h[1], h[2]>>)
    \/ n < MaxOps /\ st.mode = "block" /\ ~st.bad /\ n > 0 /\ \E f \in 0..1 : \E b \in {<<>>, <<97>>, <<255, 0>>} : \E c \in {0, 1, 256} : Do(<<"stored", f, b, c>>)
    \/ n < MaxOps /\ st.mode = "block" /\ ~st.bad /\ n > 0 /\ \E f \in 0..1 : Do(<<"fix", f>>)
    \/ n < MaxOps /\ st.mode = "block" /\ ~st.bad /\ n > 0 /\ \E f \in 0..1 : Do(Dyn0(f))
    \/ n < MaxOps /\ st.mode = "block" /\ ~st.bad /\ n > 0 /\ \E f \in 0..1 : Do(Dyn1(f))
    \/ n < MaxOps /\ st.mode = "block" /\ ~st.bad /\ n > 0 /\ Do(<<"type3", 1>>)
    \/ n < MaxOps /\ st.mode \in {"fix", "dyn"} /\ ~st.bad /\ \E c \in Lits : Do(<<"tokens", <<<<c>>>>>>)
    \/ n < MaxOps /\ st.mode \in {"fix", "dyn"} /\ ~st.bad /\ \E c \in Copies : Do(<<"tokens", <<c>>>>)
    \/ n <= MaxOps /\ st.mode \in {"fix", "dyn"} /\ ~st.bad /\ Do(<<"close">>)
    \/ n > 0 /\ op[1] # "inflate" /\ (st.mode = "end" \/ st.bad) /\ UNCHANGED st /\ n' = 99 /\ op' = <<"inflate", 0, D!Stream(st)>>
    \/ n > 1 /\ op[1] # "inflate" /\ st.mode = "end" /\ ~st.bad /\ \E c \in Cuts : Len(D!Stream(st)) > c /\ UNCHANGED st /\ n' = 98
        /\ op' = <<"inflate", c, SubSeq(D!Stream(st), 1, Len(D!Stream(st)) - c)>>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
\* the independent reader understands the stream as the writer meant it
NoDyn == st.mode # "dyn" /\ st.ll = <<>>
Body == SubSeq(D!Stream(st), 3, Len(D!Stream(st)))
Understood == (n \in 2..98 /\ NoDyn /\ (st.mode = "end" \/ st.bad) /\ (Len(st.by) < 2 \/ ~D!Header(D!Empty, st.by[1], st.by[2]).bad))
              => D!Read(Body, 0, <<>>) = (IF st.bad THEN <<>> ELSE <<st.out>>)
Prefixes == (n = 99 /\ NoDyn /\ ~st.bad) =>
    \A c \in 1..Len(Body) : D!Read(SubSeq(Body, 1, Len(Body) - c), 0, <<>>) = <<>>
ByteRange == \A k \in 1..Len(st.by) : st.by[k] \in 0..255
=============================================================================
