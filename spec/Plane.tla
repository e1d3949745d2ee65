-------------------------------- MODULE Plane -------------------------------
\* Points, sizes, axis-parallel rectangles <<x, y, width, height>> and bounding boxes of points.
EXTENDS Integers, Sequences, FiniteSets
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Left(r) == r[1]
Top(r) == r[2]
Right(r) == r[1] + r[3]
Bottom(r) == r[2] + r[4]
\* the rectangle with the given edges
Edges(l, t, r, b) == <<l, t, r - l, b - t>>
Normal(r) == r[3] >= 0 /\ r[4] >= 0
Normalized(r) == Edges(Min2(Left(r), Right(r)), Min2(Top(r), Bottom(r)), Max2(Left(r), Right(r)), Max2(Top(r), Bottom(r)))
SetTop(r, v) == Edges(Left(r), v, Right(r), Bottom(r))
SetLeft(r, v) == Edges(v, Top(r), Right(r), Bottom(r))
SetRight(r, v) == Edges(Left(r), Top(r), v, Bottom(r))
SetBottom(r, v) == Edges(Left(r), Top(r), Right(r), v)
Contains(r, x, y) == Left(r) <= x /\ x <= Right(r) /\ Top(r) <= y /\ y <= Bottom(r)
Inside(r, q) == Left(q) <= Left(r) /\ Right(r) <= Right(q) /\ Top(q) <= Top(r) /\ Bottom(r) <= Bottom(q)
\* for normal rectangles
Intersects(r, q) == Max2(Left(r), Left(q)) <= Min2(Right(r), Right(q)) /\ Max2(Top(r), Top(q)) <= Min2(Bottom(r), Bottom(q))
Intersection(r, q) == Edges(Max2(Left(r), Left(q)), Max2(Top(r), Top(q)), Min2(Right(r), Right(q)), Min2(Bottom(r), Bottom(q)))
Union(r, q) == Edges(Min2(Left(r), Left(q)), Min2(Top(r), Top(q)), Max2(Right(r), Right(q)), Max2(Bottom(r), Bottom(q)))
Empty(r) == r[3] = 0 \/ r[4] = 0
\* twice the nine points, so that they are whole numbers: corners, middles of the edges, center
Points2(r) == LET x1 == 2 * Left(r)
                  x2 == Left(r) + Right(r)
                  x3 == 2 * Right(r)
                  y1 == 2 * Top(r)
                  y2 == Top(r) + Bottom(r)
                  y3 == 2 * Bottom(r)
              IN <<<<x1, y1>>, <<x3, y1>>, <<x1, y3>>, <<x3, y3>>, <<x2, y1>>, <<x2, y3>>, <<x1, y2>>, <<x3, y2>>, <<x2, y2>>>>

\* bounding boxes: a pair of bounds, or none, for every axis
NoBox == <<<<>>, <<>>, <<>>>>
Grow(i, v) == IF i = <<>> THEN <<v, v>> ELSE <<Min2(i[1], v), Max2(i[2], v)>>
Join(i, j) == IF j = <<>> THEN i ELSE Grow(Grow(i, j[1]), j[2])
Add2(b, x, y) == <<Grow(b[1], x), Grow(b[2], y), b[3]>>
Add3(b, x, y, z) == <<Grow(b[1], x), Grow(b[2], y), Grow(b[3], z)>>
AddBox(b, c) == [i \in 1..3 |-> Join(b[i], c[i])]
Valid(b) == b[1] # <<>>
Delta(b) == [i \in 1..3 |-> IF b[i] = <<>> THEN <<>> ELSE <<b[i][2] - b[i][1]>>]
=============================================================================
