------------------------------- MODULE MCPrefs ------------------------------
\* All histories of a small map with a file; all short values; all small catalogs.
EXTENDS Integers, Sequences, FiniteSets, TLC, Walk
CONSTANTS Emit, Kind, NV, MaxLen, NE
VARIABLES m, file, t, cat, op
P == INSTANCE Prefs
View == <<m, file, t, cat>>
None == <<-1>>
Keys == {<<97>>, <<98, 92>>}
Values == LET all == <<<<120>>, <<>>, <<92, 110>>, <<10, 92>>, <<45, 48, 55>>>> IN {all[i] : i \in 1..NV}
Chars == {92, 110, 116, 10, 9, 61, 120, 13}
Texts == {<<97, 61, 122>>, <<32, 97, 32, 61, 32, 92, 114, 92, 120, 13, 10, 61, 99, 10, 98, 92, 61, 61>>, <<>>}
\* a catalog of entries (key, value), with the tables wherever they are; dmg: which of its numbers is too large
Le(n) == <<n % 256, n \div 256, 0, 0>>
Pool == <<120, 121, 122>>
Cat(es, orig, trans, dmg) ==
    LET n == Len(es)
        hdr == 20
        gap == IF orig = "last" THEN <<>> ELSE <<0, 0, 0>>
        at == hdr + Len(gap) + 16 * n
        tab(j) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN Le(es[1][j][2]) \o Le(at + es[1][j][1])
                  ELSE Le(es[1][j][2]) \o Le(at + es[1][j][1]) \o Le(es[2][j][2] + (IF dmg = "text" THEN 3 ELSE 0)) \o Le(at + es[2][j][1])
        one == hdr + Len(gap)
        two == one + 8 * n
    IN  <<222, 18, 4, IF dmg = "magic" THEN 148 ELSE 149>> \o Le(IF dmg = "version" THEN 1 ELSE 0)
        \o Le(IF dmg = "count" THEN n + 2 ELSE n)
        \o Le(IF trans = "first" THEN two ELSE one) \o Le(IF trans = "first" THEN one ELSE two) \o gap
        \o (IF trans = "first" THEN tab(2) \o tab(1) ELSE tab(1) \o tab(2)) \o Pool
Part == {<<0, 1>>, <<1, 1>>, <<0, 2>>, <<3, 0>>}
Init == m = P!Empty /\ file = None /\ t = <<>> /\ cat = <<>> /\ op = <<"new">>
Set(k, v) == m' = P!Put(m, k, v)
Next ==
    \/ Kind = "map" /\ UNCHANGED <<t, cat, file>> /\ \E k \in Keys, v \in Values : Set(k, v) /\ op' = <<"set", k, v>>
    \/ Kind = "map" /\ UNCHANGED <<t, cat, file>> /\ \E k \in Keys : Set(k, <<120>>) /\ op' = <<"setlit", k, <<120>>>>
    \/ Kind = "map" /\ UNCHANGED <<t, cat, file>> /\ \E k \in Keys : Set(k, P!False) /\ op' = <<"setbool", k, 0>>
    \/ Kind = "map" /\ UNCHANGED <<t, cat, m, file>> /\ \E k \in Keys : op' = <<"get", k>>
    \/ Kind = "map" /\ UNCHANGED <<t, cat, m, file>> /\ \E k \in Keys : op' = <<"getor", k, <<100>>>>
    \/ Kind = "map" /\ UNCHANGED <<t, cat, m, file>> /\ \E k \in Keys : op' = <<"getint", k, <<57>>>>
    \/ Kind = "map" /\ UNCHANGED <<t, cat, m, file>> /\ \E k \in Keys, d \in {0, 1} : op' = <<"getbool", k, d>>
    \/ Kind = "map" /\ UNCHANGED <<t, cat, m>> /\ P!Storable(m) /\ file' = P!Lines(m) /\ op' = <<"save">>
    \/ Kind = "map" /\ UNCHANGED <<t, cat, m>> /\ \E x \in Texts : file' = x /\ op' = <<"write", x>>
    \/ Kind = "map" /\ UNCHANGED <<t, cat, file>> /\ m' = (IF file = None THEN m ELSE P!LoadBytes(m, file)) /\ op' = <<"load">>
    \/ Kind = "map" /\ UNCHANGED <<t, cat, file>> /\ m' = P!Empty /\ op' = <<"fresh">>
    \* texts: a value is written and read, or is a line of the file itself
    \/ Kind = "text" /\ Len(t) < MaxLen /\ UNCHANGED <<m, cat, file>> /\ \E c \in Chars : t' = t \o <<c>> /\ op' = <<"set", <<107>>, t'>>
    \/ Kind = "text" /\ UNCHANGED <<m, cat, file, t>> /\ P!Storable(P!Put(P!Empty, <<107>>, t)) /\ op' = <<"keep", t>>
    \/ Kind = "text" /\ UNCHANGED <<m, cat, file, t>> /\ op' = <<"take", t>>
    \* catalogs
    \/ Kind = "cat" /\ UNCHANGED <<m, file, t>> /\ cat = <<>> /\ \E n \in 0..NE, o \in {"last", "gap"}, r \in {"first", "second"},
          x \in {"", "magic", "version", "count", "text"} : \E es \in [1..n -> Part \X Part] : \E b \in {Cat(es, o, r, x)} : cat' = b /\ op' = <<"mo", b>>
Bound == Cardinality(DOMAIN m) <= 3
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
\* what is saved is what is loaded
Kept == P!Storable(m) => \E x \in {P!LoadBytes(P!Empty, P!Lines(m))} : x = m
KeptT == LET q == P!Put(P!Empty, <<107>>, t) IN P!Storable(q) => \E x \in {P!Load(P!Empty, P!Lines(q))} : x = q
\* a catalog gives its entries, the last of the same name, and a damaged one nothing
Given == cat # <<>> => \E x \in {P!Extend(P!Empty, cat)} : IF P!Sound(cat) THEN Cardinality(DOMAIN x) <= NE /\ \A k \in DOMAIN x : P!Translate(x, k) # <<>> \/ k = <<>> ELSE x = P!Empty
Nothing == (cat # <<>> /\ (cat[4] = 148 \/ cat[5] = 1)) => ~P!Sound(cat)
=============================================================================
