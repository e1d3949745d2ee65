----------------------------- MODULE MCNotation -----------------------------
\* Every small byte sequence through Base64 and the checksum; numbers through their notations.
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, Kind, MaxB, Bytes, Inits, MaxN
VARIABLES b, t, h, n, op
N == INSTANCE Notation
View == <<b, t, h, n>>
Init == b = <<>> /\ t = <<>> /\ h = N!Zeros(16) /\ n = 0 /\ op = <<"new">>
Add(c) == b' = Append(b, c) /\ op' = <<"bytes", b'>> /\ t' = <<>> /\ n' = 0 /\ UNCHANGED h
Enc == t' = N!Enc64(b) /\ op' = <<"enc64">> /\ n' = 1 /\ UNCHANGED <<b, h>>
Cut(k) == t' = SubSeq(t, 1, k) /\ op' = <<"text", t'>> /\ n' = 2 /\ UNCHANGED <<b, h>>
Dec == N!Good64(t) /\ b' = N!Dec64(t) /\ op' = <<"dec64">> /\ n' = 3 /\ UNCHANGED <<t, h>>
Crc(i) == op' = <<"crc", i>> /\ UNCHANGED <<b, t, h, n>>
RECURSIVE Dg(_)
Dg(k) == IF k < 10 THEN <<k>> ELSE Append(Dg(k \div 10), k % 10)
\* t holds the numeral here, n the number
SetNum(k) == h' = N!Num(0, Dg(k)) /\ op' = <<"digits", 0, Dg(k)>> /\ n' = k /\ UNCHANGED <<b, t>>
NegNum(k) == h' = N!Num(1, Dg(k)) /\ op' = <<"digits", 1, Dg(k)>> /\ n' = -k /\ UNCHANGED <<b, t>>
Hex == op' = <<"hex">> /\ UNCHANGED <<b, t, h, n>>
FromHex == op' = <<"fromhex", N!Hex(h)>> /\ h' = N!FromHex(N!Hex(h)) /\ UNCHANGED <<b, t, n>>
Roman == n >= 0 /\ op' = <<"roman", n>> /\ UNCHANGED <<b, t, h, n>>
Latin == n > 0 /\ op' = <<"latin">> /\ UNCHANGED <<b, t, h, n>>
Next ==
    \/ Kind = "bytes" /\ n \in {0, 3} /\ Len(b) < MaxB /\ \E c \in Bytes : Add(c)
    \/ Kind = "bytes" /\ n = 0 /\ Enc
    \/ Kind = "bytes" /\ n = 1 /\ \E k \in 0..Len(t) : Cut(k)
    \/ Kind = "bytes" /\ n \in {1, 2} /\ Dec
    \/ Kind = "bytes" /\ n = 0 /\ \E i \in Inits : Crc(i)
    \/ Kind = "nums" /\ n = 0 /\ \E k \in 1..MaxN : SetNum(k)
    \/ Kind = "nums" /\ n = 0 /\ \E k \in 1..MaxN : NegNum(k)
    \/ Kind = "nums" /\ Hex
    \/ Kind = "nums" /\ FromHex
    \/ Kind = "nums" /\ Roman
    \/ Kind = "nums" /\ Latin
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
\* the notations lose nothing
Back64 == n = 1 => N!Good64(t) /\ N!Dec64(t) = b
Begin64 == n = 3 => Len(b) <= (Len(t) * 3) \div 4
BackHex == N!FromHex(N!Hex(h)) = h
BackRoman == (Kind = "nums" /\ n > 0) => N!RomanValue(N!Roman(n)) = n
\* the checksum of a whole from the checksums of its parts
Parts == Kind = "bytes" => \A i \in Inits : \A k \in 0..Len(b) :
            N!Crc16(i, b) = N!Crc16(N!Crc16(i, SubSeq(b, 1, k)), SubSeq(b, k + 1, Len(b)))
\* every single changed bit changes the checksum
Change == (Kind = "bytes" /\ b # <<>>) => \A k \in 1..Len(b) :
            N!Crc16(0, [b EXCEPT ![k] = (@ + 128) % 256]) # N!Crc16(0, b)
NegTwice == N!Neg(N!Neg(h)) = h
=============================================================================
