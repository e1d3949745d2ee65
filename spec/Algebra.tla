------------------------------- MODULE Algebra ------------------------------
\* Matrices (sequences of rows), vectors and transformations over the whole numbers. What is not a whole number
\* is asked for in thousandths or ten-thousandths, and compared with the exact quotient.
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Rows(m) == Len(m)
Cols(m) == IF m = <<>> THEN 0 ELSE Len(m[1])
Mk(r, c, f(_, _)) == [i \in 1..r |-> [j \in 1..c |-> f(i, j)]]
Zeros(r, c) == [i \in 1..r |-> [j \in 1..c |-> 0]]
Identity(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
SameSize(a, b) == Rows(a) = Rows(b) /\ Cols(a) = Cols(b)
Transpose(a) == [j \in 1..Cols(a) |-> [i \in 1..Rows(a) |-> a[i][j]]]
Mul(a, b) == [i \in 1..Rows(a) |-> [j \in 1..Cols(b) |-> Sum([k \in 1..Cols(a) |-> a[i][k] * b[k][j]])]]
Plus(a, b) == [i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> a[i][j] + b[i][j]]]
Minus(a, b) == [i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> a[i][j] - b[i][j]]]
Times(k, a) == [i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> k * a[i][j]]]
Apply(a, v) == [i \in 1..Rows(a) |-> Sum([k \in 1..Cols(a) |-> a[i][k] * v[k]])]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* b is written into a, its upper left corner at row r, column c (counted from 0); what does not fit is left out
Insert(a, b, r, c) == [i \in 1..Rows(a) |-> [j \in 1..Cols(a) |->
                         IF i - r \in 1..Rows(b) /\ j - c \in 1..Cols(b) THEN b[i - r][j - c] ELSE a[i][j]]]
Diag(a, v) == [i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> IF i = j THEN v ELSE a[i][j]]]
Trace(a) == Sum([i \in 1..Min2(Rows(a), Cols(a)) |-> a[i][i]])
MaxOf(s) == FoldLeft(LAMBDA a, b : Max2(a, b), 0, s)
RowNorm(a) == MaxOf([i \in 1..Rows(a) |-> Sum([j \in 1..Cols(a) |-> Abs(a[i][j])])])
ColNorm(a) == RowNorm(Transpose(a))
NonZero(a) == Sum([i \in 1..Rows(a) |-> Cardinality({j \in 1..Cols(a) : a[i][j] # 0})])
Squares(a) == Sum([i \in 1..Rows(a) |-> Sum([j \in 1..Cols(a) |-> a[i][j] * a[i][j]])])
Minor(a, r, c) == [i \in 1..(Rows(a) - 1) |-> [j \in 1..(Cols(a) - 1) |-> a[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]]]
Even(n) == IF n % 2 = 0 THEN 1 ELSE -1
RECURSIVE Det(_)
Det(a) == IF Rows(a) = 1 THEN a[1][1]
          ELSE Sum([j \in 1..Cols(a) |-> IF a[1][j] = 0 THEN 0 ELSE Even(j + 1) * a[1][j] * Det(Minor(a, 1, j))])
Cofactor(a, i, j) == IF Rows(a) = 1 THEN 1 ELSE Even(i + j) * Det(Minor(a, i, j))
Adjugate(a) == Transpose([i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> Cofactor(a, i, j)]])
\* v is n/d in units of 1/s, give or take `off' units
Near(v, n, d, s, off) == Abs(v * d - s * n) <= off * Abs(d)
\* the inverse, in thousandths
IsInverse(a, m) == \E d \in {Det(a)}, adj \in {Adjugate(a)} :
                      SameSize(a, m) /\ \A i \in 1..Rows(a), j \in 1..Cols(a) : Near(m[i][j], adj[i][j], d, 1000, 1)

\* vectors
Dot(u, v) == Sum([i \in DOMAIN u |-> u[i] * v[i]])
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Cross2(u, v) == u[1] * v[2] - u[2] * v[1]
Add(u, v) == [i \in DOMAIN u |-> u[i] + v[i]]
Sub(u, v) == [i \in DOMAIN u |-> u[i] - v[i]]
Mult(k, u) == [i \in DOMAIN u |-> k * u[i]]
Scale(u, v) == [i \in DOMAIN u |-> u[i] * v[i]]
Null(u) == \A i \in DOMAIN u : u[i] = 0
Biggest(u) == Max2(u[1], Max2(u[2], u[3]))
\* x hundredths are the root of n
IsRoot(x, n) == x >= 0 /\ (x = 0 \/ (x - 1) * (x - 1) <= 10000 * n) /\ 10000 * n <= (x + 1) * (x + 1)
\* cosine and sine of quarter turns
Cos(q) == <<1, 0, -1, 0>>[(q % 4) + 1]
Sin(q) == <<0, 1, 0, -1>>[(q % 4) + 1]
Turn2(v, q) == <<v[1] * Cos(q) - v[2] * Sin(q), v[1] * Sin(q) + v[2] * Cos(q)>>
\* the turn about the axis n/k of length one, times k * k
Turn3(v, n, k, q) == Add(Mult(k * k * Cos(q), v), Add(Mult(k * Sin(q), Cross(n, v)), Mult((1 - Cos(q)) * Dot(n, v), n)))
X == <<1, 0, 0>>
Y == <<0, 1, 0>>
Z == <<0, 0, 1>>
Axis(i) == <<X, Y, Z>>[i]
\* transformations as 4x4 matrices, from the images of origin and axes
FromImages(o, x, y, z) == [i \in 1..4 |-> IF i = 4 THEN <<0, 0, 0, 1>> ELSE <<x[i] - o[i], y[i] - o[i], z[i] - o[i], o[i]>>]
Origin == <<0, 0, 0>>
OfMap(f(_)) == FromImages(f(Origin), f(X), f(Y), f(Z))
Moving(d) == OfMap(LAMBDA p : Add(p, d))
Scaling(f) == OfMap(LAMBDA p : Scale(f, p))
ScalingAt(b, f) == OfMap(LAMBDA p : Add(b, Mult(f, Sub(p, b))))
Mirroring(b, n) == OfMap(LAMBDA p : Sub(p, Mult(2 * Dot(Sub(p, b), n), n)))
RotationZ(q) == OfMap(LAMBDA p : Turn3(p, Z, 1, q))
Rotation(b, n, q) == OfMap(LAMBDA p : Add(b, Turn3(Sub(p, b), n, 1, q)))
Image(t, p) == SubSeq(Apply(t, p \o <<1>>), 1, 3)
=============================================================================
