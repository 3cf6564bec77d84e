----------------------------- MODULE Lattice -----------------------------
\* Integer vectors, and the 24 rotations that map the coordinate axes onto
\* themselves: a finite subgroup of SO(3) on which every orientation computation of
\* the library is exact.  A rotation is its 3x3 matrix, as a sequence of rows.
EXTENDS Integers, Sequences, FiniteSets

Vec(x, y, z) == <<x, y, z>>
IAdd(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
ISub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
INeg(u) == <<-u[1], -u[2], -u[3]>>
IScale(k, u) == <<k * u[1], k * u[2], k * u[3]>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == << u[2] * v[3] - u[3] * v[2],
                  u[3] * v[1] - u[1] * v[3],
                  u[1] * v[2] - u[2] * v[1] >>
EX == <<1, 0, 0>>
EY == <<0, 1, 0>>
EZ == <<0, 0, 1>>
I0 == <<0, 0, 0>>
Units == {EX, EY, EZ, INeg(EX), INeg(EY), INeg(EZ)}

Ident == <<EX, EY, EZ>>
Apply(M, v) == <<Dot(M[1], v), Dot(M[2], v), Dot(M[3], v)>>
Col(M, j) == <<M[1][j], M[2][j], M[3][j]>>
MMul(A, B) == [i \in 1..3 |-> [j \in 1..3 |-> Dot(A[i], Col(B, j))]]
Transp(M) == <<Col(M, 1), Col(M, 2), Col(M, 3)>>
FromCols(x, y, z) == Transp(<<x, y, z>>)
XAxis(M) == Col(M, 1)
YAxis(M) == Col(M, 2)
ZAxis(M) == Col(M, 3)
Det(M) == Dot(Cross(Col(M, 1), Col(M, 2)), Col(M, 3))

Rotations == { FromCols(xy[1], xy[2], Cross(xy[1], xy[2])) :
                 xy \in { p \in Units \X Units : Dot(p[1], p[2]) = 0 } }
IsRotation(M) == M \in Rotations

\* rotation by k quarter turns about the z axis
RECURSIVE RotZ(_)
RotZ(k) == IF k % 4 = 0 THEN Ident
           ELSE MMul(<< <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >>, RotZ((k % 4) - 1))
\* rotation by a quarter turn about the unit axis n:  v -> n(n.v) + n x v
Quarter(n) == FromCols( IAdd(IScale(Dot(n, EX), n), Cross(n, EX)),
                        IAdd(IScale(Dot(n, EY), n), Cross(n, EY)),
                        IAdd(IScale(Dot(n, EZ), n), Cross(n, EZ)) )
\* the number of quarter turns of the world direction d (orthogonal to the z axis of
\* M), seen in the xy plane of M
Quarters(M, d) == CHOOSE k \in 0..3 : Apply(M, Apply(RotZ(k), EX)) = d
InPlane(M) == { d \in Units : Dot(d, ZAxis(M)) = 0 }
==========================================================================
