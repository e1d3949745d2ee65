--------------------------------- MODULE Par --------------------------------
\* Threads that work at the same time. own[t]: the text s and the map m of thread t; err: the last error told; out: the lines the log
\* has printed; th[t]: what thread t is calling (<<"go", call>>), or has been answered (<<"fin", answer>>). A text and a table are
\* given to all, to be read only. Every other call is answered from what the thread itself has done.
EXTENDS Integers, Sequences
F == INSTANCE StrFn
N == INSTANCE Notation
M == INSTANCE FmtFn
E == INSTANCE Enc
D == INSTANCE Dates
X == INSTANCE Xml

Fresh == [s |-> <<>>, m |-> <<>>]
Start(given, table, nt) ==
    [given |-> given, table |-> table, own |-> [t \in 1..nt |-> Fresh], err |-> <<>>, out |-> <<>>, th |-> [t \in 1..nt |-> <<"idle">>]]
\* maps as sequences of pairs
Found(m, k) == LET S == {i \in DOMAIN m : m[i][1] = k} IN IF S = {} THEN 0 ELSE m[CHOOSE i \in S : TRUE][2]
Without(m, k) == SelectSeq(m, LAMBDA p : p[1] # k)
Tags(t) == X!Parse(t)
Starts(it) == Len(SelectSeq(it, LAMBDA x : x[1] = "start"))
Esc(x) == <<27, 91>> \o x \o <<109>>
Bold == Esc(<<49>>)
LineOf(level, msg) ==
    CASE level = 3 -> Bold \o Esc(<<51, 49>>) \o <<69, 82, 82, 79, 82, 58, 32>> \o msg \o Esc(<<48>>)
      [] level = 2 -> Bold \o Esc(<<51, 51>>) \o <<87, 65, 82, 78, 73, 78, 71, 58, 32>> \o msg \o Esc(<<48>>)
      [] level = 1 -> <<73, 78, 70, 79, 58, 32>> \o msg
IsoForm == <<121,121,121,121,45,77,77,45,100,100,32,72,72,58,109,109,58,115,115>>
RECURSIVE ValueOf(_, _)
ValueOf(ds, v) == IF ds = <<>> THEN v ELSE ValueOf(Tail(ds), 10 * v + Head(ds))
\* what a thread's own things become by a call, and the answer (a sequence: empty where there is none, or where the call threw)
Own(s, o, c) ==
    LET k == c[1]
        T(x) == [w |-> [o EXCEPT !.s = x], v |-> <<>>]
        R(x) == [w |-> o, v |-> <<x>>]
    IN
    CASE k = "set" -> T(c[2])
      [] k = "app" -> T(o.s \o c[2])
      [] k = "num" -> T(o.s \o M!NumText(c[2], c[3]))
      [] k = "up" -> T(F!Upper(o.s))
      [] k = "low" -> T(F!Lower(o.s))
      [] k = "rep" -> T(F!ReplS(o.s, c[2], c[3]))
      [] k = "trim" -> T(F!Trim(o.s))
      [] k = "arg" -> T(M!Arg(o.s, c[2], 0, 32))
      [] k = "gcopy" -> T(s.given)
      [] k = "sub" -> R(F!Sub(o.s, c[2], c[3]))
      [] k = "get" -> R(o.s)
      [] k = "put" -> [w |-> [o EXCEPT !.m = Without(o.m, c[2]) \o <<<<c[2], c[3]>>>>], v |-> <<Found(o.m, c[2])>>]
      [] k = "del" -> [w |-> [o EXCEPT !.m = Without(o.m, c[2])], v |-> <<Found(o.m, c[2])>>]
      [] k = "look" -> R(Found(o.m, c[2]))
      [] k = "roman" -> R(N!Roman(c[2]))
      [] k = "hex" -> R(N!Hex(N!Num(c[2], c[3])))
      [] k = "toint" -> LET p == M!ParseInt(c[2]) IN IF p = <<>> THEN [w |-> o, v |-> <<>>] ELSE R((IF p[1] = 1 THEN -1 ELSE 1) * ValueOf(p[2], 0))
      [] k = "dbl" -> R(M!DblText(c[2], c[3], c[4], c[5], c[6], c[7] = 1))
      [] k = "enc64" -> R(N!Enc64(c[2]))
      [] k = "dec64" -> R(N!Dec64(c[2]))
      [] k = "crc" -> R(N!Crc16(c[2], c[3]))
      [] k = "enc" -> R(E!Enc(c[2], c[3]))
      [] k = "dec" -> IF E!Refused(c[2], c[3]) THEN [w |-> o, v |-> <<>>] ELSE R(E!Dec(c[2], c[3]))
      [] k = "urlenc" -> R(E!UrlEnc(c[2]))
      [] k = "date" -> R(D!Format(c[2], <<c[3], c[4]>>))
      [] k = "iso" -> R(D!Iso(<<c[2], c[3]>>))
      [] k = "gdate" -> R(D!Format(IsoForm, <<c[2], c[3]>>))
      [] k = "zip" -> R(c[2])
      [] k = "xml" -> R(Starts(Tags(c[2]).it))
      [] k = "mul" -> R(<<c[2][1] + 3 * c[2][2], 2 * c[2][1] + 4 * c[2][2], c[2][3] + 3 * c[2][4], 2 * c[2][3] + 4 * c[2][4]>>)
      [] k = "gup" -> R(F!Upper(s.given))
      [] k = "gsub" -> R(F!Sub(s.given, c[2], c[3]))
      [] k = "gfind" -> R(F!FirstAt(s.given, c[2], 0))
      [] k = "gsame" -> R(IF s.given = c[2] THEN 1 ELSE 0)
      [] k = "glook" -> R(Found(s.table, c[2]))
      [] k = "tr" -> R(c[2])
Words == <<-1>>
\* the log and the last error are the only things threads share and change: each call does so at once
TauT(s, t) ==
    IF s.th[t][1] # "go" THEN {}
    ELSE LET c == s.th[t][2] IN
    IF c[1] = "log" THEN {[s EXCEPT !.err = IF c[2] = 3 THEN c[3] ELSE @, !.out = @ \o <<LineOf(c[2], c[3])>>, !.th[t] = <<"fin", <<>>>>]}
    ELSE IF c[1] = "err" THEN {[s EXCEPT !.th[t] = <<"fin", <<s.err>>>>]}
    ELSE UNION {{[s EXCEPT !.own[t] = r.w, !.th[t] = <<"fin", r.v>>]}
                \* a call that throws may tell so, in words of its own
                \cup IF r.v = <<>> /\ c[1] \in {"toint", "dec"}
                     THEN {[s EXCEPT !.th[t] = <<"fin", <<>>>>, !.err = Words, !.out = @ \o <<Words>>]} ELSE {}
                : r \in {Own(s, s.own[t], c)}}
Tau(s) == UNION {TauT(s, t) : t \in DOMAIN s.th}
Vis(s, e) ==
    CASE e[1] = "call" -> IF s.th[e[2]][1] = "idle" THEN {[s EXCEPT !.th[e[2]] = <<"go", e[3]>>]} ELSE {}
      [] e[1] = "ret" -> IF s.th[e[2]][1] = "fin" /\ (s.th[e[2]][2] = e[3] \/ s.th[e[2]][2] = <<Words>>) THEN {[s EXCEPT !.th[e[2]] = <<"idle">>]} ELSE {}
      [] e[1] = "end" -> IF (\A t \in DOMAIN s.th : s.th[t][1] = "idle" /\ s.own[t].s = e[2][t]) /\ Len(s.out) = Len(e[3]) /\ \A i \in DOMAIN s.out : s.out[i] \in {Words, e[3][i]} THEN {s} ELSE {}
      [] OTHER -> {}
=============================================================================
