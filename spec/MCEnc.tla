-------------------------------- MODULE MCEnc -------------------------------
\* All small texts through every character set and back; all small byte sequences.
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, MaxT, MaxB, Chars, Bytes, Chars1
VARIABLES t, b, n, cs, op
E == INSTANCE Enc
View == <<t, b, n, cs>>
RECURSIVE Seqs(_, _)
Seqs(S, m) == IF m = 0 THEN {<<>>} ELSE Seqs(S, m - 1) \cup {Append(s, c) : s \in Seqs(S, m - 1), c \in S}
Init == t = <<>> /\ b = <<>> /\ n = 0 /\ cs = "" /\ op = <<"new">>
Text(s) == t' = s /\ n' = 1 /\ op' = <<"text", s>> /\ UNCHANGED <<b, cs>>
Raw(s) == b' = s /\ n' = 2 /\ op' = <<"bytes", s>> /\ UNCHANGED <<t, cs>>
Encode(c) == E!Expressible(c, t) /\ b' = E!Enc(c, t) /\ n' = 3 /\ cs' = c /\ op' = <<"enc", c>> /\ UNCHANGED t
Decode(c) == E!Decodable(c, b) /\ t' = (IF E!Refused(c, b) THEN t ELSE E!Dec(c, b)) /\ n' = 4 /\ op' = <<"dec", c>> /\ UNCHANGED <<b, cs>>
Next ==
    \/ n = 0 /\ \E s \in Seqs(Chars, MaxT) \cup {<<c>> : c \in Chars1} : Text(s)
    \/ n = 0 /\ \E s \in Seqs(Bytes, MaxB) : Raw(s)
    \/ n = 1 /\ \E c \in E!Sets : Encode(c)
    \/ n = 3 /\ Decode(cs)
    \/ n = 2 /\ \E c \in E!Sets : Decode(c)
    \/ n = 2 /\ UNCHANGED <<t, b, cs>> /\ n' = 4 /\ op' = <<"guess">>
    \/ n = 1 /\ t' = E!UrlEnc(t) /\ n' = 5 /\ op' = <<"urlenc">> /\ UNCHANGED <<b, cs>>
    \/ n = 5 /\ ~E!UrlRefused(t) /\ t' = E!UrlDec(t) /\ n' = 6 /\ op' = <<"urldec">> /\ UNCHANGED <<b, cs>>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
\* decoding inverts encoding, for every text without zero and not starting with a byte order mark
Plain(s) == (\A k \in 1..Len(s) : s[k] # 0) /\ (s = <<>> \/ s[1] \notin {65279, 65534})
           /\ ~(cs \in {"UTF-16LE", "UTF-16BE"} /\ E!Starts(b, E!Bom8))
           /\ ~(cs \in {"UTF-16LE", "UTF-16BE"} /\ Len(b) > 1 /\ {b[1], b[2]} = {254, 255})
RoundTrip == [][(op'[1] = "dec" /\ n = 3 /\ Plain(t)) => t' = t]_<<t, b, n, cs, op>>
ByteRange == \A k \in 1..Len(b) : b[k] \in 0..255
UnitRange == \A k \in 1..Len(t) : t[k] \in 0..65535
UrlAscii == n = 5 => \A k \in 1..Len(t) : t[k] < 128
Shorter == n = 4 => Len(t) <= Len(b)
=============================================================================
