-------------------------------- MODULE Prefs -------------------------------
\* Stored preferences: a map of texts, its lines in a file, and translation catalogs, which fill such a map.
EXTENDS Integers, Sequences, FiniteSets
S == INSTANCE StrFn
E == INSTANCE Enc

Empty == [k \in {} |-> <<>>]
Has(m, k) == k \in DOMAIN m
Get(m, k) == IF Has(m, k) THEN m[k] ELSE <<>>
GetOr(m, k, d) == IF Get(m, k) = <<>> THEN d ELSE m[k]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
\* whole numbers are decimal texts here
IsNum(t) == \A k \in 1..Len(t) : S!IsDigit(t[k]) \/ (k = 1 /\ t[k] = 45)
RECURSIVE NoZeros(_)
NoZeros(t) == IF Len(t) > 1 /\ t[1] = 48 THEN NoZeros(Tail(t)) ELSE IF t = <<>> THEN <<48>> ELSE t
Num(t) == IF t[1] = 45 THEN LET n == NoZeros(Tail(t)) IN IF n = <<48>> THEN n ELSE <<45>> \o n ELSE NoZeros(t)
GetInt(m, k, d) == LET v == Get(m, k) IN IF v = <<>> \/ ~IsNum(v) THEN d ELSE Num(v)
\* numbers of eighths, as decimal fractions of at most three places
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<n + 48>> ELSE Append(Dec(n \div 10), (n % 10) + 48)
Eighths(t) == LET s == IF t[1] = 45 THEN Tail(t) ELSE t
                  p == IF \E k \in 1..Len(s) : s[k] = 46 THEN CHOOSE k \in 1..Len(s) : s[k] = 46 ELSE Len(s) + 1
                  D(k) == IF k <= Len(s) THEN s[k] - 48 ELSE 0
                  RECURSIVE W(_)
                  W(k) == IF k = 0 THEN 0 ELSE 10 * W(k - 1) + D(k)
                  v == 8 * W(p - 1) + (D(p + 1) * 100 + D(p + 2) * 10 + D(p + 3)) \div 125
              IN  IF t[1] = 45 THEN -v ELSE v
IsReal(t) == LET s == IF t # <<>> /\ t[1] = 45 THEN Tail(t) ELSE t IN
    /\ s # <<>> /\ S!IsDigit(s[1]) /\ Len(s) <= 11
    /\ \E p \in 2..(Len(s) + 1) : /\ (\A k \in 1..Len(s) : IF k = p THEN s[k] = 46 ELSE S!IsDigit(s[k]))
                                 /\ p <= 8 /\ Len(s) <= p + 3 /\ (Len(s) >= p => Len(s) > p)
    /\ \E p \in 2..(Len(s) + 1) : (p > Len(s) \/ s[p] = 46) /\ (\A k \in 2..(p - 1) : s[k] # 46)
            /\ LET D(k) == IF k <= Len(s) THEN s[k] - 48 ELSE 0 IN (D(p + 1) * 100 + D(p + 2) * 10 + D(p + 3)) % 125 = 0
RealText(neg, w, f) == (IF neg = 1 THEN <<45>> ELSE <<>>) \o Dec(w) \o
    (CASE f = 0 -> <<>> [] f = 4 -> <<46, 53>> [] f = 2 -> <<46, 50, 53>> [] f = 6 -> <<46, 55, 53>>
       [] OTHER -> <<46, 48 + (f * 125) \div 100, 48 + (((f * 125) \div 10) % 10), 48 + ((f * 125) % 10)>>)
GetReal(m, k, d) == IF Get(m, k) = <<>> THEN d ELSE Eighths(m[k])
GetBool(m, k, d) == IF Get(m, k) = <<>> THEN d ELSE IF m[k] = True THEN 1 ELSE 0

\* ---- the file: lines "key=value", in which \\ \t \n \r stand for themselves
RECURSIVE Unescape(_)
Unescape(t) ==
    IF Len(t) < 2 THEN t
    ELSE IF t[1] # 92 \/ t[2] \notin {92, 116, 110, 114} THEN <<t[1]>> \o Unescape(Tail(t))
    ELSE <<CASE t[2] = 92 -> 92 [] t[2] = 116 -> 9 [] t[2] = 110 -> 10 [] OTHER -> 13>> \o Unescape(SubSeq(t, 3, Len(t)))
RECURSIVE EscapeAll(_)
EscapeAll(t) ==
    IF t = <<>> THEN t
    ELSE (CASE t[1] = 92 -> <<92, 92>> [] t[1] = 9 -> <<92, 116>> [] t[1] = 10 -> <<92, 110>> [] t[1] = 13 -> <<92, 114>>
            [] OTHER -> <<t[1]>>) \o EscapeAll(Tail(t))
\* the position of the first "=", 0 if there is none
Eq(t) == LET at == {k \in 1..Len(t) : t[k] = 61} IN IF at = {} THEN 0 ELSE CHOOSE k \in at : \A j \in at : k <= j
Line(m, t) == LET p == Eq(t) IN IF p < 2 THEN m ELSE Put(m, S!Trim(SubSeq(t, 1, p - 1)), Unescape(S!Trim(SubSeq(t, p + 1, Len(t)))))
RECURSIVE Load(_, _)
Load(m, t) ==
    IF t = <<>> THEN m
    ELSE LET ends == {k \in 1..Len(t) : t[k] \in {10, 13}}
             n == IF ends = {} THEN Len(t) + 1 ELSE CHOOSE k \in ends : \A j \in ends : k <= j
         IN  Load(Line(m, SubSeq(t, 1, n - 1)), SubSeq(t, n + 1, Len(t)))
LoadBytes(m, b) == Load(m, E!Utf8Dec(b, 1))
\* what a file can keep
Blank == {32, 8, 12}
KeyOk(k) == k # <<>> /\ S!Trim(k) = k /\ \A i \in 1..Len(k) : k[i] \notin {0, 10, 13, 61, 65279}
ValueOk(v) == v # <<>> => (v[1] \notin Blank /\ v[Len(v)] \notin Blank /\ \A i \in 1..Len(v) : v[i] # 0)
Storable(m) == \A k \in DOMAIN m : KeyOk(k) /\ ValueOk(m[k])
RECURSIVE Lines(_)
Lines(m) == IF DOMAIN m = {} THEN <<>>
            ELSE LET k == CHOOSE k \in DOMAIN m : \A j \in DOMAIN m : S!Compare(k, j) <= 0
                 IN  k \o <<61>> \o EscapeAll(m[k]) \o <<10>> \o Lines([x \in DOMAIN m \ {k} |-> m[x]])

\* ---- catalogs: a header of five numbers, two tables of (length, place), the texts. Numbers too large for any file count as Big.
Big == 16777216
N(b, i) == IF b[i + 4] # 0 THEN Big ELSE b[i + 1] + 256 * b[i + 2] + 65536 * b[i + 3]
Fits(b, place, len) == place + len <= Len(b)
Entry(b, table, n) == [len |-> N(b, table + 8 * n), at |-> N(b, table + 8 * n + 4)]
Bytes(b, e) == SubSeq(b, e.at + 1, e.at + e.len)
Text(b, e) == E!Dec("UTF-8", Bytes(b, e))
Head4(b) == SubSeq(b, 1, 4) = <<222, 18, 4, 149>> /\ SubSeq(b, 5, 8) = <<0, 0, 0, 0>>
Sound(b) ==
    /\ Len(b) >= 20 /\ Head4(b)
    /\ LET n == N(b, 8) IN
        /\ Fits(b, N(b, 12), 8 * n) /\ Fits(b, N(b, 16), 8 * n)
        /\ \A k \in 0..(n - 1), t \in {12, 16} : LET e == Entry(b, N(b, t), k) IN Fits(b, e.at, e.len)
RECURSIVE PutAll(_, _, _)
PutAll(m, b, k) == IF k = N(b, 8) THEN m ELSE PutAll(Put(m, Text(b, Entry(b, N(b, 12), k)), Text(b, Entry(b, N(b, 16), k))), b, k + 1)
Extend(m, b) == IF Sound(b) THEN PutAll(m, b, 0) ELSE m
\* a catalog of many entries: a letter and the number of the entry, translated to another letter and the number
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Many(m, n, c, d) ==
    LET new == [k \in {<<c>> \o Digits(i) : i \in 0..(n - 1)} |-> <<d>> \o Tail(k)]
    IN  [k \in DOMAIN m \union DOMAIN new |-> IF k \in DOMAIN new THEN new[k] ELSE m[k]]
\* texts that announce another encoding are not for this document
Plain(b) == Sound(b) => \A k \in 0..(N(b, 8) - 1), t \in {12, 16} : ~E!Refused("UTF-8", Bytes(b, Entry(b, N(b, t), k)))
Translate(m, k) == GetOr(m, k, k)
=============================================================================
