-------------------------------- MODULE Dates --------------------------------
\* The Gregorian calendar, proleptic and with a year 0. A time is <<day, ms>>: the number of the day (0 is 1970-01-01, a
\* Thursday) and the milliseconds of that day. A civil day is <<year, month 0..11, day of month 1..31>>.
EXTENDS Integers, Sequences
MsPerDay == 86400000
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Lengths == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
MonthLength(y, m) == IF m = 1 /\ Leap(y) THEN 29 ELSE Lengths[m + 1]
YearLength(y) == IF Leap(y) THEN 366 ELSE 365
\* the calendar as a machine: the day after a day
Tomorrow(c) == IF c[3] < MonthLength(c[1], c[2]) THEN <<c[1], c[2], c[3] + 1>>
               ELSE IF c[2] < 11 THEN <<c[1], c[2] + 1, 1>> ELSE <<c[1] + 1, 0, 1>>
\* the same in closed form
YearStart(y) == 365 * (y - 1970) + ((y - 1969) \div 4) - ((y - 1901) \div 100) + ((y - 1601) \div 400)
Before == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
MonthStart(y, m) == Before[m + 1] + (IF m > 1 /\ Leap(y) THEN 1 ELSE 0)
\* months beyond the year and days beyond the month carry over
DayNumber(y, m, d) == LET yy == y + (m \div 12) IN YearStart(yy) + MonthStart(yy, m % 12) + d - 1
Year(n) ==
    LET guess == 1970 + (n \div 366)
        lo == guess - 2 - (IF n < 0 THEN (-n) \div 100000 ELSE 0)
        hi == guess + 2 + (IF n > 0 THEN n \div 100000 ELSE 0)
    IN  CHOOSE y \in lo..hi : YearStart(y) <= n /\ n < YearStart(y + 1)
Civil(n) == LET y == Year(n)
                r == n - YearStart(y)
                m == CHOOSE m \in 0..11 : MonthStart(y, m) <= r /\ (m = 11 \/ r < MonthStart(y, m + 1))
            IN  <<y, m, r - MonthStart(y, m) + 1>>
WeekDay(n) == (n + 4) % 7
DayOfYear(n) == n - YearStart(Year(n))
Clock(ms) == <<ms \div 3600000, (ms \div 60000) % 60, (ms \div 1000) % 60, ms % 1000>>
Millis(h, mi, s, ms) == h * 3600000 + mi * 60000 + s * 1000 + ms
Norm(day, ms) == <<day + (ms \div MsPerDay), ms % MsPerDay>>
Less(t, u) == t[1] < u[1] \/ (t[1] = u[1] /\ t[2] < u[2])

\* ---- texts
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Pad(n, w) == [k \in 1..w |-> 48 + ((n \div (10 ^ (w - k))) % 10)]
Iso(t) == LET c == Civil(t[1])
              k == Clock(t[2])
          IN  Pad(c[1], 4) \o <<45>> \o Pad(c[2] + 1, 2) \o <<45>> \o Pad(c[3], 2) \o <<84>> \o Pad(k[1], 2) \o <<58>>
              \o Pad(k[2], 2) \o <<58>> \o Pad(k[3], 2) \o <<46>> \o Pad(k[4], 3) \o <<90>>
Quote == 39
\* a pattern falls into runs of one letter, and into texts between quotes: <<text?, characters>>
RECURSIVE Runs(_, _, _, _)
Runs(p, k, run, inText) ==
    LET flush == IF inText THEN <<<<TRUE, run>>>> ELSE IF run = <<>> THEN <<>> ELSE <<<<FALSE, run>>>> IN
    IF k > Len(p) THEN flush
    ELSE IF p[k] = Quote THEN flush \o Runs(p, k + 1, <<>>, ~inText)
    ELSE IF inText \/ run = <<>> \/ run[1] = p[k] THEN Runs(p, k + 1, Append(run, p[k]), inText)
    ELSE flush \o Runs(p, k + 1, <<p[k]>>, FALSE)
Two(n, w) == IF w = 2 THEN Pad(n, 2) ELSE Dec(n)
ShortDays == <<<<83>>, <<77>>, <<68>>, <<77>>, <<68>>, <<70>>, <<83>>>>
MidDays == <<<<83, 111>>, <<77, 111>>, <<68, 105>>, <<77, 105>>, <<68, 111>>, <<70, 114>>, <<83, 97>>>>
LongDays == << <<83,111,110,110,116,97,103>>, <<77,111,110,116,97,103>>, <<68,105,101,110,115,116,97,103>>,
    <<77,105,116,116,119,111,99,104>>, <<68,111,110,110,101,114,115,116,97,103>>, <<70,114,101,105,116,97,103>>,
    <<83,97,109,115,116,97,103>> >>
MidMonths == << <<74,97,110>>, <<70,101,98>>, <<77,114,122>>, <<65,112,114>>, <<77,97,105>>, <<74,117,110>>, <<74,117,108>>,
    <<65,117,103>>, <<83,101,112>>, <<79,107,116>>, <<78,111,118>>, <<68,101,122>> >>
LongMonths == << <<74,97,110,117,97,114,121>>, <<70,101,98,114,117,97,114,121>>, <<77,97,114,99,104>>, <<65,112,114,105,108>>,
    <<77,97,121>>, <<74,117,110,101>>, <<74,117,108,121>>, <<65,117,103,117,115,116>>, <<83,101,112,116,101,109,98,101,114>>,
    <<79,99,116,111,98,101,114>>, <<78,111,118,101,109,98,101,114>>, <<68,101,99,101,109,98,101,114>> >>
Piece(run, t) ==
    LET c == Civil(t[1])
        k == Clock(t[2])
        w == Len(run)
        l == run[1]
    IN  CASE l = 121 -> (IF w = 2 THEN Pad(c[1], 2) ELSE Dec(c[1]))
          [] l = 77 -> (CASE w <= 2 -> Two(c[2] + 1, w) [] w = 3 -> MidMonths[c[2] + 1] [] OTHER -> LongMonths[c[2] + 1])
          [] l = 100 -> Two(c[3], w)
          [] l = 69 -> (LET d == WeekDay(t[1]) + 1 IN IF w = 1 THEN ShortDays[d] ELSE IF w < 4 THEN MidDays[d] ELSE LongDays[d])
          [] l = 72 -> Two(k[1], w)
          [] l = 109 -> Two(k[2], w)
          [] l = 115 -> Two(k[3], w)
          [] l = 83 -> (IF w = 1 THEN Dec(k[4]) ELSE Pad(k[4], 3))
          [] OTHER -> run
RECURSIVE Cat(_, _)
Cat(rs, t) == IF rs = <<>> THEN <<>> ELSE (IF rs[1][1] THEN rs[1][2] ELSE Piece(rs[1][2], t)) \o Cat(Tail(rs), t)
Format(p, t) == Cat(Runs(p, 1, <<>>, FALSE), t)
\* letters that stand for something not available yet
Reserved == {119, 87, 68, 70, 97, 75, 104, 107, 122}
=============================================================================
