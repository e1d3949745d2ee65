----------------------------- MODULE AlgebraTrace ---------------------------
EXTENDS TraceLib
VARIABLES a, b, l          \* two matrices, <<rows, columns, rows' entries>>
M == INSTANCE Algebra
Empty == <<>>
Init == a = Empty /\ b = Empty /\ l = 1
Bit(x) == IF x THEN 1 ELSE 0
Same == UNCHANGED <<a, b>>
To(v) == a' = v /\ UNCHANGED b
Frm(v) == a' = v /\ b' = a
Ok(e) == e.x = 0
\* the call must fail exactly if the sizes do not fit
Fits(e, c, v) == IF c THEN e.x = 0 /\ To(v) ELSE e.x = 1 /\ Same
Square(m) == M!Rows(m) = M!Cols(m)
Step(e) ==
    LET t == e.a
        r == e.r
    IN CASE e.op = "new" -> Ok(e) /\ a' = Empty /\ b' = Empty
         [] e.op = "zero" -> Ok(e) /\ To(M!Zeros(t[1], t[2]))
         [] e.op = "mat" -> Ok(e) /\ To(t[1])
         [] e.op = "rhs" -> Ok(e) /\ b' = t[1] /\ UNCHANGED a
         [] e.op = "swap" -> Ok(e) /\ a' = b /\ b' = a
         [] e.op = "copy" -> Ok(e) /\ b' = a /\ UNCHANGED a
         [] e.op = "set" -> Ok(e) /\ To([a EXCEPT ![t[1]][t[2]] = t[3]])
         [] e.op = "inc" -> Ok(e) /\ To([a EXCEPT ![t[1]][t[2]] = @ + t[3]])
         [] e.op = "diag" -> Ok(e) /\ To(M!Diag(a, t[1]))
         [] e.op = "zeros" -> Ok(e) /\ To(M!Zeros(M!Rows(a), M!Cols(a)))
         [] e.op = "transpose" -> Ok(e) /\ To(M!Transpose(a))
         [] e.op = "insert" -> Ok(e) /\ To(M!Insert(a, b, t[1], t[2]))
         [] e.op = "mul" -> Fits(e, M!Cols(a) = M!Rows(b), M!Mul(a, b))
         [] e.op = "plus" -> Fits(e, M!SameSize(a, b), M!Plus(a, b))
         [] e.op = "minus" -> Fits(e, M!SameSize(a, b), M!Minus(a, b))
         [] e.op = "times" -> Ok(e) /\ To(M!Times(t[1], a))
         \* divided by a divisor of all entries
         [] e.op = "over" -> Ok(e) /\ UNCHANGED b /\ a' = e.o[1] /\ M!Times(t[1], e.o[1]) = a
         [] e.op = "rows3" -> Ok(e) /\ To(IF t[4] = 1 THEN <<t[1], t[2], t[3]>> ELSE M!Transpose(<<t[1], t[2], t[3]>>))
         [] e.op = "det" -> Ok(e) /\ Same /\ r[1] = Bit(Square(a)) /\ (Square(a) => r[2] = M!Det(a))
         [] e.op = "inverse" -> Ok(e) /\ Same /\ M!IsInverse(a, r[2]) /\ r[1] = 1
         [] e.op = "noinverse" -> Ok(e) /\ Same /\ r[1] = 0
         [] e.op = "facts" -> Ok(e) /\ Same /\ r = <<M!RowNorm(a), M!ColNorm(a), M!Trace(a), M!NonZero(a)>>
         [] e.op = "apply" -> Same /\ IF M!Cols(a) = Len(t[1]) THEN Ok(e) /\ r = M!Apply(a, t[1]) ELSE e.x = 1
         [] e.op = "apply3" -> Same /\ IF M!Cols(a) = 3 /\ M!Rows(a) = 3 THEN Ok(e) /\ r = M!Apply(a, t[1]) ELSE e.x = 1
         \* eigenvalues in hundredths: their sum, the sum of their squares (of symmetric matrices)
         [] e.op = "eigen" -> /\ Ok(e) /\ Same /\ Len(r) = M!Rows(a)
                              /\ M!Near(M!Sum(r), M!Trace(a), 1, 100, Len(r))
                              /\ M!Abs(M!Sum([i \in DOMAIN r |-> r[i] * r[i]]) - 10000 * M!Squares(a)) <= M!Sum([i \in DOMAIN r |-> M!Abs(r[i]) + 1])
         \* whole eigenvalues, in hundredths
         [] e.op = "eigenInt" -> /\ Ok(e) /\ Same /\ Len(r) = M!Rows(a)
                                 /\ \A i \in DOMAIN r : r[i] % 100 = 0 /\ M!Det(M!Minus(a, M!Times(r[i] \div 100, M!Identity(M!Rows(a))))) = 0
                                 /\ M!Sum(r) = 100 * M!Trace(a)
                                 /\ M!Sum([i \in DOMAIN r |-> (r[i] \div 100) * (r[i] \div 100)]) = M!Trace(M!Mul(a, a))
         \* transformations
         [] e.op = "identity" -> Ok(e) /\ Frm(M!Identity(4))
         [] e.op = "moving" -> Ok(e) /\ Frm(M!Moving(t[1]))
         [] e.op = "scaling" -> Ok(e) /\ Frm(M!Scaling(t[1]))
         [] e.op = "scalingAt" -> Ok(e) /\ Frm(M!ScalingAt(t[1], t[2]))
         [] e.op = "mirroring" -> Ok(e) /\ Frm(M!Mirroring(t[1], t[2]))
         [] e.op = "rotationZ" -> Ok(e) /\ Frm(M!RotationZ(t[1]))
         [] e.op = "rotation" -> Ok(e) /\ Frm(M!Rotation(t[1], t[2], t[3]))
         [] e.op = "image" -> Ok(e) /\ Same /\ r[1] = M!Image(a, t[1])
         [] e.op = "length" -> Ok(e) /\ Same /\ \E d \in {M!Sub(M!Image(a, <<t[1], 0, 0>>), M!Image(a, M!Origin))} : M!IsRoot(r[1], M!Dot(d, d))
         \* the direction of a quarter turn, where it stays in the plane: in ten-thousandths
         [] e.op = "angle" -> Ok(e) /\ Same /\ \E d \in {M!Sub(M!Image(a, <<M!Cos(t[1]), M!Sin(t[1]), 0>>), M!Image(a, M!Origin))} :
                                 LET n == M!Dot(d, d) IN
                                 \* <<cosine, sine>> of the answer have the direction of d
                                 /\ M!Abs(r[1] * d[2] - r[2] * d[1]) <= 2 * (M!Abs(d[1]) + M!Abs(d[2]))
                                 /\ r[1] * d[1] + r[2] * d[2] > 0
         \* about any axis n/k of length one, and mirrored at any plane, in thousandths
         [] e.op = "turned" -> Ok(e) /\ Same /\ LET w == M!Turn3(M!Sub(t[4], t[1]), t[2], t[3], t[5])
                                                    k == t[3] * t[3]
                                                IN \A i \in 1..3 : M!Near(r[i], k * t[1][i] + w[i], k, 1000, 1)
         [] e.op = "mirrored" -> Ok(e) /\ Same /\ LET k == t[3] * t[3]
                                                      n == M!Dot(M!Sub(t[4], t[1]), t[2])
                                                  IN \A i \in 1..3 : M!Near(r[i], k * t[4][i] - 2 * n * t[2][i], k, 1000, 1)
         \* the coordinate system of an extrusion direction n/k, in ten-thousandths: a right system with this third
         \* axis whose first axis lies in the plane; the two ways undo each other
         [] e.op = "ocs" -> Ok(e) /\ Same /\ LET m == r[1] IN
                              /\ \A i \in 1..3 : M!Near(m[3][i], t[1][i], t[2], 10000, 1)
                              /\ \A i, j \in 1..3 : M!Abs(M!Dot([k \in 1..3 |-> m[i][k] \div 10], [k \in 1..3 |-> m[j][k] \div 10]) - (IF i = j THEN 1000000 ELSE 0)) <= 3500
                              /\ M!Det([i \in 1..3 |-> [k \in 1..3 |-> m[i][k] \div 100]]) > 900000
                              /\ LET flat == 64 * M!Abs(t[1][1]) < t[2] /\ 64 * M!Abs(t[1][2]) < t[2]
                                 IN IF flat THEN m[1][2] = 0 /\ m[1][1] * t[1][3] > 0 ELSE m[1][3] = 0
                              /\ \A i \in 1..3 : M!Near(r[2][i], t[3][i], 1, 1000, 2) /\ M!Near(r[3][i], t[3][i], 1, 1000, 2)
         \* the rotation of u to v, of equal length: the image of u (thousandths), of the axis, of a third vector
         [] e.op = "uv" -> Ok(e) /\ Same /\ LET u == t[1]
                                                v == t[2]
                                                n == M!Cross(u, v)
                                                w == t[3]
                                            IN /\ \A i \in 1..3 : M!Near(r[1][i], v[i], 1, 1000, 2)
                                               /\ \A i \in 1..3 : M!Near(r[2][i], n[i], 1, 1000, 2)
                                               \* lengths and angles are kept, the orientation too
                                               /\ M!Abs(M!Dot(r[3], v) - 1000 * M!Dot(w, u)) <= 4 * M!Sum([i \in 1..3 |-> M!Abs(v[i])])
                                               /\ r[4] = 1000
         \* vectors
         [] e.op = "v3" -> Ok(e) /\ Same /\ LET u == t[1]
                                                v == t[2]
                                                k == t[3]
                                            IN r = <<M!Cross(u, v), M!Dot(u, v), M!Add(u, v), M!Sub(u, v), M!Add(u, v), M!Sub(u, v), M!Mult(k, u), M!Mult(k, u), M!Scale(u, v), u,
                                                     M!Biggest(u), Bit(M!Null(M!Cross(u, v))), Bit(M!Dot(u, v) = 0), Bit(M!Null(u)), Bit(u = v), Bit(u # v), 1>>
         [] e.op = "v2" -> Ok(e) /\ Same /\ LET u == t[1]
                                                v == t[2]
                                                k == t[3]
                                            IN r = <<M!Cross2(u, v), M!Dot(u, v), M!Add(u, v), M!Sub(u, v), M!Add(u, v), M!Sub(u, v), M!Mult(k, u), M!Mult(k, u), M!Scale(u, v), u,
                                                     Bit(M!Cross2(u, v) > 0), Bit(M!Cross2(u, v) < 0), Bit(M!Cross2(u, v) = 0), Bit(M!Dot(u, v) = 0), Bit(u = v), Bit(u # v), 1>>
         [] e.op = "vn" -> Same /\ LET u == t[1]
                                       v == t[2]
                                   IN IF Len(u) = Len(v) THEN Ok(e) /\ r = <<M!Dot(u, v), M!Add(u, v), M!Sub(u, v), M!Mult(t[3], u), M!Mult(0, u), [i \in DOMAIN u |-> 1]>>
                                      ELSE e.x = 1
         \* between the plane and space
         [] e.op = "conv" -> Ok(e) /\ Same /\ LET v == t[1]
                                                w == <<v[1], v[2]>>
                                            IN r = <<w, w \o <<t[2]>>, w \o <<0>>, v, v, <<0, 0, 0>>, <<0, 0>>, w, <<v[1], v[3]>>>>
         \* lengths in hundredths, directions in thousandths of a vector of length one
         [] e.op = "len" -> Ok(e) /\ Same /\ LET u == t[1] IN
                              /\ M!IsRoot(r[1], M!Dot(u, u))
                              /\ \A j \in 2..Len(r) :
                                   IF M!Null(u) THEN M!Null(r[j])
                                   ELSE /\ M!Abs(M!Dot(r[j], r[j]) - 1000000) <= 2 * M!Sum([i \in DOMAIN u |-> M!Abs(r[j][i]) + 1])
                                        /\ M!Dot(r[j], u) > 0
                                        /\ \A i, k \in DOMAIN u : M!Abs(r[j][i] * u[k] - r[j][k] * u[i]) <= M!Abs(u[i]) + M!Abs(u[k])
         \* the angle between two vectors: in ten-thousandths of a right angle, and its cosine in thousandths
         [] e.op = "between" -> Ok(e) /\ Same /\ LET u == t[1]
                                                     v == t[2]
                                                     dot == M!Dot(u, v)
                                                     uu == M!Dot(u, u) * M!Dot(v, v)
                                                 IN /\ (r[1] = 0 <=> dot > 0 /\ dot * dot = uu) /\ r[1] <= 20000 /\ r[1] >= -20000
                                                    /\ (M!Abs(r[1]) = 20000 <=> dot < 0 /\ dot * dot = uu)
                                                    /\ (M!Abs(r[1]) = 10000 <=> dot = 0)
                                                    /\ (M!Abs(r[1]) < 10000 <=> dot > 0)
                                                    /\ (M!Abs(r[1]) = 5000 <=> dot > 0 /\ 2 * dot * dot = uu)
                                                    /\ (M!Abs(r[1]) < 5000 <=> dot > 0 /\ 2 * dot * dot > uu)
                                                    /\ IF Len(u) = 3 THEN r[1] >= 0
                                                       ELSE M!Abs(r[1]) < 20000 /\ r[1] # 0 => (r[1] > 0 <=> M!Cross2(u, v) > 0)
         [] e.op = "turn2" -> Ok(e) /\ Same /\ r = <<M!Turn2(t[1], t[2]), M!Turn2(t[1], t[2])>>
         [] e.op = "turn3" -> Ok(e) /\ Same /\ LET T(n) == M!Turn3(t[1], n, 1, t[2]) IN r = <<T(M!X), T(M!Y), T(M!Z), T(M!Z), T(M!X), T(M!Y), T(M!Z)>>
         [] e.op = "independent" -> Ok(e) /\ Same /\ r[1] = Bit(M!Det(<<t[1], t[2], t[3]>>) # 0)
         \* x * p + y * q = s, in thousandths
         [] e.op = "solve" -> Ok(e) /\ Same /\ LET d == M!Cross2(t[1], t[2]) IN
                                 /\ M!Near(r[1], M!Cross2(t[3], t[2]), d, 1000, 1)
                                 /\ M!Near(r[2], M!Cross2(t[1], t[3]), d, 1000, 1)
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ <<a', b'>> = <<Trace[l].o[1], Trace[l].o[2]>> /\ l' = l + 1
Mem == Remember(<<a, b>>)
=============================================================================
