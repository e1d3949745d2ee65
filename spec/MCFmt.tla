-------------------------------- MODULE MCFmt -------------------------------
\* All small templates with arguments inserted one after another; all small numbers.
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, MaxT, K, P, Chars
VARIABLES s, n, op
F == INSTANCE FmtFn
View == <<s, n>>
RECURSIVE Texts(_)
Texts(m) == IF m = 0 THEN {<<>>} ELSE Texts(m - 1) \cup {Append(t, c) : t \in Texts(m - 1), c \in Chars}
Init == s = <<>> /\ n = 0 /\ op = <<"new">>
Tmpl(t) == F!Proper(t) /\ s' = t /\ n' = 0 /\ op' = <<"tmpl", t>>
Put(t, w, c) == LET r == F!Arg(s, t, w, c) IN
    F!Proper(r) /\ s' = r /\ n' = n + 1 /\ op' = <<"args", t, w, c>>
Keep == UNCHANGED <<s, n>>
Next ==
    \/ n = 0 /\ s = <<>> /\ \E t \in Texts(MaxT) : Tmpl(t)
    \/ s # <<>> /\ n < 2 /\ \E t \in {<<>>, <<97>>, <<37, 49>>, <<50, 37>>}, w \in {0, 2, -3} : Put(t, w, 42)
    \/ s = <<>> /\ \E neg \in 0..1, w \in {0, 9, 19, 99}, k \in 0..K, p \in 1..P, c \in 0..1 : \E f \in 0..(F!Pow(2, k) - 1) :
        (k = 0 \/ f % 2 = 1) /\ (w > 0 \/ (f * F!Pow(10, p)) \div F!Pow(2, k) > 0) /\ Keep
        /\ op' = <<"dbl", neg, w, f, k, p, c>>
    \/ s = <<>> /\ \E neg \in 0..1, d \in {<<1>>, <<9, 0, 5>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 1>>}, e \in -7..12 :
        Keep /\ op' = <<"real", neg, d, e>>
    \/ s = <<>> /\ \E t \in {<<45>>, <<>>, <<49>>, <<48>>, <<43>>} : \E u \in Texts(2) : \E v \in {<<55>>, <<48, 51>>} :
        Keep /\ op' = <<"toint", t \o v \o u>>
Bound == n <= 2
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
\* with all arguments free of percent signs, each insertion uses up one placeholder
Uses == [][(op'[1] = "args" /\ op'[2] \in {<<>>, <<97>>} /\ F!Holders(s) # {} /\
            \A i \in 1..Len(s) : s[i] # 37 \/ i \in F!Holders(s))
           => Len(s') - Len(s) <= 3]_<<s, n, op>>
Sane == \A i \in F!Holders(s) : F!NumAt(s, F!First(s)) <= F!NumAt(s, i)
\* the positional form has its point behind the digit of the ones: read back it is the same number
Shown == \A e \in -4..9, d \in {<<1>>, <<9, 0, 5>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 1>>} :
    LET t == F!RealText(0, d, e)
        p == IF \E k \in 1..Len(t) : t[k] = 46 THEN CHOOSE k \in 1..Len(t) : t[k] = 46 ELSE Len(t) + 1
        ds == SelectSeq(t, F!IsDigit)
        z == CHOOSE k \in 1..Len(ds) : ds[k] # 48 /\ \A j \in 1..(k - 1) : ds[j] = 48
    IN  /\ p - 1 - z = e /\ \A k \in 1..Len(d) : ds[z + k - 1] = d[k] + 48
        /\ \A k \in (z + Len(d))..Len(ds) : ds[k] = 48
Round == \A neg \in 0..1 : F!ParseInt(F!NumText(neg, <<1, 0, 7>>)) = <<neg, <<1, 0, 7>>>>
=============================================================================
