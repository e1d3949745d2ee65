----------------------------- MODULE DatesTrace -----------------------------
EXTENDS TraceLib
\* t: the time of the date, <<>> if it is empty
VARIABLES t, l
D == INSTANCE Dates
Init == t = <<0, 0>> /\ l = 1
B(b) == IF b THEN 1 ELSE 0
Step(e) ==
    LET a == e.a IN
    CASE e.op = "new" -> t' = <<0, 0>>
      [] e.op \in {"set", "settime"} -> t' = <<a[1], a[2]>>
      [] e.op = "empty" -> t' = <<>>
      [] e.op = "day" -> t' = <<D!DayNumber(a[1], a[2], a[3]), 0>>
      \* hours may be many: days first
      [] e.op = "moment" -> t' = D!Norm(D!DayNumber(a[1], a[2], a[3]) + (a[4] \div 24), D!Millis(a[4] % 24, a[5], a[6], a[7]))
      [] e.op = "ns" -> t' = D!Norm(11323 + (a[1] \div 86400), (a[1] % 86400) * 1000 + a[2] * 125)
      [] e.op = "fields" -> UNCHANGED t /\ e.r = D!Civil(t[1]) \o <<D!WeekDay(t[1]), D!DayOfYear(t[1])>> \o D!Clock(t[2])
      [] e.op = "text" -> UNCHANGED t /\ e.r = <<D!Iso(t)>>
      [] e.op = "compare" -> LET u == <<a[1], a[2]>> IN
            UNCHANGED t /\ e.r = <<IF D!Less(t, u) THEN -1 ELSE IF D!Less(u, t) THEN 1 ELSE 0, B(D!Less(t, u)), B(~D!Less(u, t)), B(t = u),
                                   B(t # u), B(~D!Less(t, u)), B(D!Less(u, t))>>
      [] e.op = "format" -> UNCHANGED t /\ e.r = <<D!Format(a[1], t)>>
Next == l <= Len(Trace) /\ Trace[l].x = 0 /\ Step(Trace[l]) /\ Trace[l].o = t' /\ l' = l + 1
Legal(e) == CASE e.op \in {"fields", "compare"} -> t # <<>>
              [] e.op = "text" -> t # <<>> /\ D!Year(t[1]) \in 0..9999
              [] e.op = "format" -> t # <<>> /\ D!Year(t[1]) >= 0 /\ \A r \in {D!Runs(e.a[1], 1, <<>>, FALSE)} :
                                       \A k \in 1..Len(r) : r[k][1] \/ r[k][2][1] \notin D!Reserved
              [] OTHER -> TRUE
Mem == (l <= Len(Trace) => CheckLegal(Legal(Trace[l]), l)) /\ Remember(t)
=============================================================================
