------------------------------- MODULE MCDates -------------------------------
\* The calendar runs day by day; the closed form agrees with it on every day.
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, From, To, Alphabet, MaxLen
VARIABLES c, n, p, op
D == INSTANCE Dates
View == <<c, n, p>>
Init == c = <<From, 0, 1>> /\ n = D!YearStart(From) /\ p = <<>> /\ op = <<"new">>
Tomorrow == c[1] < To /\ c' = D!Tomorrow(c) /\ n' = n + 1 /\ op' = <<"day", c'[1], c'[2], c'[3]>> /\ UNCHANGED p
Jump(y, m) == c = <<From, 0, 1>> /\ c' = <<y, m, 1>> /\ n' = D!DayNumber(y, m, 1) /\ op' = <<"day", y, m, 1>> /\ UNCHANGED p
Ask == op' = <<"fields">> /\ UNCHANGED <<c, n, p>>
Grow(x) == Len(p) < MaxLen /\ p' = Append(p, x) /\ op' = <<"format", p'>> /\ UNCHANGED <<c, n>>
Next ==
    \/ MaxLen = 0 /\ Tomorrow
    \/ MaxLen = 0 /\ \E y \in From..To, m \in 0..11 : Jump(y, m)
    \/ MaxLen = 0 /\ Ask
    \/ \E x \in Alphabet : Grow(x)
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
Bound == TRUE
Agree == D!Civil(n) = c /\ D!DayNumber(c[1], c[2], c[3]) = n /\ D!DayOfYear(n) = n - D!DayNumber(c[1], 0, 1)
Months == \A k \in 1..24 : D!DayNumber(c[1], c[2] + k, 1) > D!DayNumber(c[1], c[2] + k - 1, 1)
\* nothing of a pattern is lost: the runs and the quotes make up the pattern
Whole == LET r == D!Runs(p, 1, <<>>, FALSE)
             RECURSIVE Size(_)
             Size(k) == IF k = 0 THEN 0 ELSE Size(k - 1) + Len(r[k][2])
         IN  Size(Len(r)) + Len(SelectSeq(p, LAMBDA x : x = D!Quote)) = Len(p)
=============================================================================
