------------------------------- MODULE LList --------------------------------
\* The linked list as a sequence, edited with or without the editing history. Steps remember the sequence
\* before and after them.
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Data
VARIABLES lst, base, open, und, red, tracked, ret
vars == <<lst, base, open, und, red, tracked, ret>>

NotFound == 5
OK == 1

Init == lst = <<>> /\ base = <<>> /\ open = FALSE /\ und = <<>> /\ red = <<>> /\ tracked = TRUE /\ ret = <<>>

First(s, d) == CHOOSE i \in DOMAIN s : s[i] = d /\ \A j \in 1..(i - 1) : s[j] # d
Has(s, d) == \E i \in DOMAIN s : s[i] = d
Times(s, d) == Cardinality({i \in DOMAIN s : s[i] = d})
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Insert(s, i, d) == SubSeq(s, 1, i - 1) \o <<d>> \o SubSeq(s, i, Len(s))
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

\* An edit that takes place
Change(new) ==
    /\ lst' = new
    /\ IF tracked
       THEN /\ base' = IF open THEN base ELSE lst
            /\ open' = TRUE
            /\ red' = <<>>
       ELSE UNCHANGED <<base, open, red>>
    /\ UNCHANGED <<und, tracked>>
Nothing == UNCHANGED <<lst, base, open, und, red, tracked>>

Add(d) == Change(Append(lst, d)) /\ ret' = <<>>
AddBefore(b, d) ==
    /\ IF Has(lst, b) THEN Change(Insert(lst, First(lst, b), d)) ELSE Nothing
    /\ ret' = <<>>
Remove(d) ==
    IF Has(lst, d) THEN Change(Without(lst, First(lst, d))) /\ ret' = <<OK>>
    ELSE Nothing /\ ret' = <<NotFound>>
Clear ==
    /\ IF lst = <<>> THEN Nothing ELSE Change(<<>>)
    /\ ret' = <<>>
\* defined for entries the list holds at most once
CanSwap(a, b) == Times(lst, a) <= 1 /\ Times(lst, b) <= 1
Swap(a, b) ==
    /\ CanSwap(a, b)
    /\ IF Has(lst, a) /\ Has(lst, b)
       THEN Change([i \in DOMAIN lst |-> IF lst[i] = a THEN b ELSE IF lst[i] = b THEN a ELSE lst[i]])
       ELSE Nothing
    /\ ret' = <<>>

Close ==
    /\ IF open THEN und' = Append(und, <<base, lst>>) /\ open' = FALSE ELSE UNCHANGED <<und, open>>
    /\ ret' = <<>>
    /\ UNCHANGED <<lst, base, red, tracked>>
Undo ==
    IF open \/ und = <<>> THEN Nothing /\ ret' = <<0>>
    ELSE /\ lst' = und[Len(und)][1]
         /\ red' = Append(red, und[Len(und)])
         /\ und' = SubSeq(und, 1, Len(und) - 1)
         /\ ret' = <<1>>
         /\ UNCHANGED <<base, open, tracked>>
Redo ==
    IF open \/ red = <<>> THEN Nothing /\ ret' = <<0>>
    ELSE /\ lst' = red[Len(red)][2]
         /\ und' = Append(und, red[Len(red)])
         /\ red' = SubSeq(red, 1, Len(red) - 1)
         /\ ret' = <<1>>
         /\ UNCHANGED <<base, open, tracked>>
\* Forgetting the history leaves the list alone; afterwards it may be edited without one, until tracking
\* is taken up again.
Forget(t) ==
    /\ und' = <<>> /\ red' = <<>> /\ open' = FALSE /\ tracked' = t
    /\ UNCHANGED <<lst, base>> /\ ret' = <<>>

Linked ==
    /\ \A i \in 1..Len(und) - 1 : und[i][2] = und[i + 1][1]
    /\ \A i \in 1..Len(red) - 1 : red[i + 1][2] = red[i][1]
    /\ (~open /\ und # <<>>) => und[Len(und)][2] = lst
    /\ red # <<>> => (~open /\ red[Len(red)][1] = lst)
    /\ (open /\ und # <<>>) => und[Len(und)][2] = base
=============================================================================
