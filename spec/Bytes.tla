-------------------------------- MODULE Bytes -------------------------------
\* Byte arrays, and a stack. nul[v]: no buffer at all; high[v]: the largest size since the buffer was made,
\* bytes beyond it are known to be zero when the array grows into them.
EXTENDS Integers, Sequences, FiniteSets
CONSTANT BVars
VARIABLES by, nul, high, stk, ret, thrown
bv == <<by, nul, high>>
Init == /\ by = [v \in BVars |-> <<>>] /\ nul = [v \in BVars |-> TRUE] /\ high = [v \in BVars |-> 0]
        /\ stk = <<>> /\ ret = <<>> /\ thrown = FALSE
B(b) == IF b THEN 1 ELSE 0
Quiet == ret' = <<>> /\ thrown' = FALSE
Say(r) == ret' = r /\ thrown' = FALSE
Refuse == ret' = <<>> /\ thrown' = TRUE
Min2(a, b) == IF a < b THEN a ELSE b
Put(v, s, n, h) ==
    /\ by' = [by EXCEPT ![v] = s] /\ nul' = [nul EXCEPT ![v] = n] /\ high' = [high EXCEPT ![v] = h]
    /\ Quiet /\ UNCHANGED stk
Look(r) == UNCHANGED bv /\ UNCHANGED stk /\ Say(r)
Valid(v, i) == i \in 0..(Len(by[v]) - 1)

Make(v, s) == Put(v, s, FALSE, Len(s))
RECURSIVE UpTo0(_, _)
UpTo0(s, i) == IF i > Len(s) \/ s[i] = 0 THEN SubSeq(s, 1, i - 1) ELSE UpTo0(s, i + 1)
MakeZ(v, s) == Make(v, UpTo0(s, 1))
MakeNull(v) == Put(v, <<>>, TRUE, 0)
MakeFilled(v, n, c) == Put(v, [k \in 1..n |-> c], FALSE, n)
\* a copy need not keep room beyond its size
Copy(v, w) == Put(v, by[w], nul[w], high[w])
Set(v, i, c) == Valid(v, i) /\ Put(v, [by[v] EXCEPT ![i + 1] = c], nul[v], high[v])
Get(v, i) == Valid(v, i) /\ Look(<<by[v][i + 1]>>)
Fill(v, c) == Put(v, [k \in DOMAIN by[v] |-> c], nul[v], high[v])
Swap(v, a, c) == Put(v, [k \in DOMAIN by[v] |-> IF by[v][k] = a THEN c ELSE by[v][k]], nul[v], high[v])
\* length bytes of w from s on are written at t, as far as they fit
Splice(v, t, s, w, n) ==
    /\ t \in 0..Len(by[v]) /\ s >= 0 /\ n >= 0 /\ s + n <= Len(by[w]) /\ (v # w \/ t <= s)
    /\ Put(v, [k \in DOMAIN by[v] |-> IF k > t /\ k <= t + n THEN by[w][k - t + s] ELSE by[v][k]], nul[v], high[v])
\* grown is what the new bytes hold: zero where nothing was stored before
Resize(v, n, grown) ==
    /\ n >= 0
    /\ LET s == by[v] IN
        IF n <= Len(s) THEN Put(v, SubSeq(s, 1, n), FALSE, high[v])
        ELSE /\ Len(grown) = n - Len(s)
             /\ \A k \in DOMAIN grown : grown[k] \in 0..255 /\ (Len(s) + k > high[v] => grown[k] = 0)
             /\ Put(v, s \o grown, FALSE, IF n > high[v] THEN n ELSE high[v])
RECURSIVE InOrder(_, _)
InOrder(set, s) ==
    IF set = {} THEN <<>>
    ELSE LET m == CHOOSE c \in set : \A d \in set : c <= d
         IN  [k \in 1..Cardinality({i \in DOMAIN s : s[i] = m}) |-> m] \o InOrder(set \ {m}, s)
Sorted(s) == InOrder({s[k] : k \in DOMAIN s}, s)
Sort(v) == Put(v, Sorted(by[v]), nul[v], high[v])
Equal(v, w) == Look(<<B(by[v] = by[w])>>)

\* the top is the head
St(s) == stk' = s /\ UNCHANGED bv
Push(x) == St(<<x>> \o stk) /\ Quiet
Pop == stk # <<>> /\ St(Tail(stk)) /\ Say(<<stk[1]>>)
Top == stk # <<>> /\ St(stk) /\ Say(<<stk[1]>>)
SetTop(x) == stk # <<>> /\ St(<<x>> \o Tail(stk)) /\ Quiet
Nth(n) == St(stk) /\ IF Len(stk) >= n THEN Say(<<stk[n]>>) ELSE Refuse
Reverse == St([k \in DOMAIN stk |-> stk[Len(stk) + 1 - k]]) /\ Quiet
ClearStack == St(<<>>) /\ Quiet
=============================================================================
