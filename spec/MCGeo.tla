-------------------------------- MODULE MCGeo -------------------------------
EXTENDS Integers, Sequences, TLC, Walk
CONSTANTS Emit, Flat, Space, Dirs
F1 == {-1, 0, 2}
F2 == {-2, -1, 0, 1, 3}
S1 == {<<0, 0, 0>>, <<1, 2, -1>>, <<0, 3, 2>>, <<-2, 0, 1>>}
S2 == S1 \cup {<<3, 1, 1>>, <<2, -2, 2>>, <<1, 0, 0>>}
D1 == {<<0, 0, 0>>, <<0, 0, 1>>, <<1, 2, 2>>, <<-1, -2, -2>>, <<3, -1, 0>>}
D2 == D1 \cup {<<2, 2, 1>>, <<0, 2, 0>>, <<1, -1, 4>>}
VARIABLES on, op
M == INSTANCE Geo
View == <<on>>
Init == on = 1 /\ op = <<"new">>
P2 == {<<x, y>> : x, y \in Flat}
Q2 == {<<0, 0>>, <<2, -1>>}
V2 == {<<1, 0>>, <<0, -2>>, <<1, 2>>, <<-2, 1>>, <<0, 0>>}
Around == {<<1, 0>>, <<1, 1>>, <<0, 1>>, <<-1, 2>>, <<-1, 0>>, <<-2, -1>>, <<0, -1>>, <<2, -1>>}
Next ==
    \/ UNCHANGED on /\ \E p, q \in Space, n, v \in Dirs, x \in {0, 1} : op' = <<"meetPlane", p, n, q, v, x>>
    \/ UNCHANGED on /\ \E p, q \in Space, n \in Dirs, t \in {0, 10, 15} : ~M!Null(n) /\ op' = <<"plane", p, q, n, t>>
    \/ UNCHANGED on /\ \E p, q \in Space, v \in Dirs : ~M!Null(v) /\ op' = <<"line", p, q, v>>
    \/ UNCHANGED on /\ \E p, q, s \in Space : q # s /\ op' = <<"segment", p, q, s>>
    \/ UNCHANGED on /\ \E p, q \in Space, u, v \in Dirs : ~M!Null(u) /\ ~M!Null(v) /\ op' = <<"lines", p, u, q, v>>
    \/ UNCHANGED on /\ \E p, c \in Space, n \in Dirs, k \in {1, 2, 3} : ~M!Null(n) /\ ~M!Parallel(n, M!Sub(p, c)) /\ op' = <<"circle", p, c, k, n>>
    \/ UNCHANGED on /\ \E p, q \in Space : op' = <<"points3", p, q>>
    \/ UNCHANGED on /\ \E p, q \in P2 : op' = <<"points2", p, q>>
    \/ UNCHANGED on /\ \E p \in P2, q \in Q2, u, v \in V2 : op' = <<"meet2", p, u, q, v>>
    \/ UNCHANGED on /\ \E p \in P2, q \in Q2, u \in V2 : u # <<0, 0>> /\ op' = <<"foot2", p, q, u>>
    \/ UNCHANGED on /\ \E p, q, s \in P2, t \in Q2 : op' = <<"crosses", p, q, s, t>>
    \/ UNCHANGED on /\ \E p, q \in P2, u \in V2, t \in Q2 : op' = <<"ray", p, u, q, t>>
    \/ UNCHANGED on /\ \E u, w \in Around, i, j \in {-1, 0, 1}, o \in {<<0, 0>>, <<2, 0>>, <<-3, 0>>}, v \in {<<1, 0>>, <<-1, 0>>} : op' = <<"arc", o, v, <<0, 0>>, 1, u, w, i, j>>
    \/ UNCHANGED on /\ \E u, w \in Around, o \in {<<1, 1>>, <<5, 1>>, <<1, -4>>}, v \in {<<0, 1>>, <<-2, 0>>, <<1, 0>>} : op' = <<"arc", o, v, <<1, 1>>, 4, u, w, 0, 0>>
    \/ UNCHANGED on /\ \E x, y \in -4..4, o \in {<<1, 1>>, <<4, 2>>}, v \in {<<1, 2>>, <<-4, 2>>, <<-1, -2>>} : M!RayOnEllipse(o, v, <<1, 1>>, <<1, 2>>, 4, 1, 2, <<1, 0>>, <<1, 0>>)[1] /\ op' = <<"ellipse", o, v, <<1, 1>>, <<1, 2>>, 2, 1, 2, x, y>>
    \/ UNCHANGED on /\ \E c \in P2, p, q \in 1..3, k \in {1, 10} : op' = <<"circles", <<0, 0>>, p, c, q, k>>
    \/ UNCHANGED on /\ \E u, v \in {<<<<0, 0, 1>>, 1>>, <<<<3, 4, 0>>, 5>>, <<<<-1, 2, 2>>, 3>>, <<<<-12, 5, 0>>, 13>>} : op' = <<"bisector", u[1], u[2], v[1], v[2]>>
    \/ UNCHANGED on /\ \E p, q \in P2, s \in Q2 : M!Cross2(M!Sub(q, p), M!Sub(s, p)) # 0 /\ op' = <<"through", p, q, s>>
    \/ UNCHANGED on /\ \E p \in P2, q \in Q2, u, v \in V2, k \in {1, 3} : u # <<0, 0>> /\ v # <<0, 0>> /\ op' = <<"touching", k, p, u, q, v>>
Bound == TRUE
EmitT == Emit => PrintStep(View, op', View')
EmitI == (Emit /\ TLCGet("level") = 1) => PrintInit(View)
Same(x, y) == IF x = M!None \/ y = M!None THEN x = y ELSE M!Mult(y[2], x[1]) = M!Mult(x[2], y[1])
N2(x) == M!Dot(x, x)
Once == TLCGet("level") = 1
\* no point of the plane or line (at whole parameters) is nearer than the foot, which lies on it; distances are those
Feet == Once => \A p, q \in Space, v \in Dirs : ~M!Null(v) =>
    /\ \E f \in {M!FootOnPlane(p, q, v)} :
         /\ M!Dot(v, M!Sub(f[1], M!Mult(f[2], q))) = 0
         /\ N2(M!Sub(f[1], M!Mult(f[2], p))) * M!ToPlane2(p, q, v)[2] = f[2] * f[2] * M!ToPlane2(p, q, v)[1]
         /\ \A s \in Space : M!Dot(v, M!Sub(s, q)) = 0 => M!ToPlane2(p, q, v)[1] <= N2(M!Sub(s, p)) * M!ToPlane2(p, q, v)[2]
    /\ \E f \in {M!FootOnLine(p, q, v, TRUE)} :
         /\ M!OnLine(f[1], M!Mult(f[2], q), v)
         /\ N2(M!Sub(f[1], M!Mult(f[2], p))) * M!ToLine2(p, q, v)[2] = f[2] * f[2] * M!ToLine2(p, q, v)[1]
         /\ \A k \in -4..4 : M!ToLine2(p, q, v)[1] <= N2(M!Sub(M!Add(q, M!Mult(k, v)), p)) * M!ToLine2(p, q, v)[2]
\* the distance of lines is the one between the feet, and no other points (at half parameters) are nearer
Lines == Once => \A p, q \in Space, u, v \in Dirs : (~M!Null(u) /\ ~M!Null(v)) =>
    \E d \in {M!Lines2(p, u, q, v)} :
      /\ \A i, k \in -3..3 : 4 * d[1] <= d[2] * N2(M!Add(M!Mult(2, M!Sub(p, q)), M!Sub(M!Mult(i, u), M!Mult(k, v))))
      /\ (~M!Parallel(u, v) => \E f \in {M!FootOnSecond(p, u, q, v)}, g \in {M!FootOnSecond(q, v, p, u)} :
             f[2] = g[2] /\ N2(M!Sub(f[1], g[1])) * d[2] = d[1] * f[2] * f[2])
      /\ Same(M!Meet3(p, u, q, v), M!Meet3(q, v, p, u))
\* crossing and meeting do not depend on order and orientation, and what is met lies on both
Meets == Once => \A p, q, s \in P2, t \in Q2 :
    /\ M!Crosses(p, q, s, t) = M!Crosses(s, t, q, p)
    /\ \E x \in {M!RayOnSegment(p, M!Sub(q, p), s, t)} :
         /\ Same(x, M!RayOnSegment(p, M!Mult(3, M!Sub(q, p)), t, s))
         /\ x # M!None => /\ Same(x, M!Meet2(p, M!Sub(q, p), s, M!Sub(t, s)))
                          /\ M!Cross2(M!Sub(x[1], M!Mult(x[2], s)), M!Sub(t, s)) = 0
                          /\ M!Dot(M!Sub(x[1], M!Mult(x[2], p)), M!Sub(q, p)) * x[2] > 0
    /\ (M!Crosses(p, q, s, t) /\ M!Cross2(M!Sub(p, s), M!Sub(t, s)) # 0) => M!RayOnSegment(p, M!Sub(q, p), s, t) # M!None
\* an arc and the rest of the circle share only its ends
Arcs == Once => \A u, w, x \in Around : M!Turned(u, w) # 0 =>
    /\ M!Within(u, w, x) \/ M!Within(w, u, x)
    /\ (M!Within(u, w, x) /\ M!Within(w, u, x)) => M!Turned(u, x) = 0 \/ M!Turned(w, x) = 0
Circles == Once => \A p, q \in P2, s \in Q2 : M!Cross2(M!Sub(q, p), M!Sub(s, p)) # 0 =>
    \E c \in {M!Centre(p, q, s)}, r \in {M!Radius2(p, q, s)} :
       \A x \in {p, q, s} : N2(M!Sub(c[1], M!Mult(c[2], x))) * r[2] = r[1] * c[2] * c[2]
=============================================================================
