--------------------------------- MODULE Map --------------------------------
\* The hash table as a finite map from texts to values (1 .. 9999 name objects).
EXTENDS Integers, Sequences, FiniteSets
\* mass[i + 1] is the value of the key "k" with the number i behind it, 0 if there is none; map holds all other keys
VARIABLES map, mass, ret
Init == map = <<>> /\ mass = <<>> /\ ret = <<>>
RECURSIVE Dec(_)
Dec(i) == (IF i < 10 THEN <<>> ELSE Dec(i \div 10)) \o <<48 + (i % 10)>>
Name(i) == <<107>> \o Dec(i)
RECURSIVE Value(_, _, _)
Value(k, j, n) == IF j > Len(k) THEN n ELSE Value(k, j + 1, 10 * n + k[j] - 48)
Num(k) == IF Len(k) \in 2..8 /\ k[1] = 107 /\ (\A j \in 2..Len(k) : k[j] \in 48..57) /\ (k[2] # 48 \/ Len(k) = 2) THEN Value(k, 2, 0) ELSE -1
InMass(k) == mass # <<>> /\ Num(k) \in 0..(Len(mass) - 1)
MassKeys == {Name(i - 1) : i \in {j \in DOMAIN mass : mass[j] # 0}}
EveryKey == DOMAIN map \cup MassKeys
Size == Cardinality(DOMAIN map) + Cardinality({j \in DOMAIN mass : mass[j] # 0})
Without(k) == [x \in DOMAIN map \ {k} |-> map[x]]
With(k, v) == [x \in DOMAIN map \cup {k} |-> IF x = k THEN v ELSE map[x]]
Old(k) == IF InMass(k) THEN mass[Num(k) + 1] ELSE IF k \in DOMAIN map THEN map[k] ELSE 0
Has(k) == Old(k) # 0
B(b) == IF b THEN 1 ELSE 0

Put(k, v) ==
    /\ IF InMass(k) THEN mass' = [mass EXCEPT ![Num(k) + 1] = v] /\ UNCHANGED map ELSE map' = With(k, v) /\ UNCHANGED mass
    /\ ret' = <<Old(k)>>
\* many keys at once: into an empty table, or where there were many before
PutMany(lo, hi, v) ==
    /\ mass' = [j \in 1..(IF hi >= Len(mass) THEN hi + 1 ELSE Len(mass)) |->
                  IF j - 1 \in lo..hi THEN v ELSE IF j <= Len(mass) THEN mass[j] ELSE 0]
    /\ ret' = <<>> /\ UNCHANGED map
RemoveMany(lo, hi) == mass' = [j \in DOMAIN mass |-> IF j - 1 \in lo..hi THEN 0 ELSE mass[j]] /\ ret' = <<>> /\ UNCHANGED map
Remove(k) ==
    /\ IF InMass(k) THEN mass' = [mass EXCEPT ![Num(k) + 1] = 0] /\ UNCHANGED map ELSE map' = Without(k) /\ UNCHANGED mass
    /\ ret' = <<Old(k)>>
Clear == map' = <<>> /\ mass' = <<>> /\ ret' = <<>>
Get(k) == UNCHANGED <<map, mass>> /\ ret' = <<Old(k)>>
Contains(k) == UNCHANGED <<map, mass>> /\ ret' = <<B(Has(k))>>
\* an iteration visits every entry exactly once, in any order
ListsKeys(r) == Len(r) = Size /\ {r[i] : i \in DOMAIN r} = EveryKey
Times(r, v) == Cardinality({i \in DOMAIN r : r[i] = v})
ListsValues(r) ==
    /\ Len(r) = Size
    /\ \A v \in ({map[k] : k \in DOMAIN map} \cup {mass[j] : j \in DOMAIN mass}) \ {0} :
        Times(r, v) = Cardinality({k \in DOMAIN map : map[k] = v}) + Times(mass, v)
=============================================================================
