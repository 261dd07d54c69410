------------------------------- MODULE Nearest -------------------------------
(* The surface of polygons and what is nearest to a position (C10).          *)
(*                                                                           *)
(* x and z of corners and positions are in sixteenths of a cell; heights,    *)
(* closest points and distances are in 1/128 of a cell ("fine" units), so    *)
(* that everything fits TLC's integers.  A polygon is                        *)
(*   [v: corners <<x, z>>, lo, hi: bounds <<x, y, z>> (fine y),              *)
(*    hi2: highest point of its detail surface, tris: detail triangles]      *)
EXTENDS Integers, Sequences, FiniteSets

NAbs(a) == IF a < 0 THEN -a ELSE a
NMin(a, b) == IF a < b THEN a ELSE b
NMax(a, b) == IF a > b THEN a ELSE b
NCross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
NNext(q, j) == q[(j % Len(q)) + 1]

\* strictly inside / on or inside, for either orientation
InsideStrict(q, x) == \/ \A j \in 1..Len(q) : NCross(q[j], NNext(q, j), x) > 0
                      \/ \A j \in 1..Len(q) : NCross(q[j], NNext(q, j), x) < 0
InsideClosed(q, x) == \/ \A j \in 1..Len(q) : NCross(q[j], NNext(q, j), x) >= 0
                      \/ \A j \in 1..Len(q) : NCross(q[j], NNext(q, j), x) <= 0

\* the point of segment ab closest to x, in fine units
OnSegment(a, b, x) ==
  LET dx == b[1] - a[1]  dz == b[2] - a[2]
      L == dx * dx + dz * dz
      t0 == (x[1] - a[1]) * dx + (x[2] - a[2]) * dz
      t == IF t0 < 0 THEN 0 ELSE IF t0 > L THEN L ELSE t0
  IN IF L = 0 THEN <<8 * a[1], 8 * a[2]>>
     ELSE <<8 * a[1] + ((8 * dx * t + (L \div 2)) \div L), 8 * a[2] + ((8 * dz * t + (L \div 2)) \div L)>>
Dist2(x, c) == (8 * x[1] - c[1]) * (8 * x[1] - c[1]) + (8 * x[2] - c[2]) * (8 * x[2] - c[2])

\* all boundary points that are closest to x, up to rounding
ClosestOnBoundary(q, x) ==
  LET C == [j \in 1..Len(q) |-> OnSegment(q[j], NNext(q, j), x)]
      D == [j \in 1..Len(q) |-> Dist2(x, C[j])]
      m == CHOOSE d \in {D[j] : j \in 1..Len(q)} : \A j \in 1..Len(q) : d <= D[j]
      tol == ((NAbs(8 * x[1] - 8 * q[1][1]) + NAbs(8 * x[2] - 8 * q[1][2])) * 2) + 16
  IN {C[j] : j \in {j \in 1..Len(q) : D[j] <= m + tol}}

\* heights the detail surface of p may have at c (fine units)
HeightIn(tri, c) ==
  LET f(v) == <<2 * v[1], 2 * v[3]>>            \* 1/32
      x == <<c[1] \div 4, c[2] \div 4>>
      a == f(tri[1])  b == f(tri[2])  d == f(tri[3])
      wa == NCross(b, d, x)  wb == NCross(d, a, x)  wd == NCross(a, b, x)
      den == wa + wb + wd
      sg == IF den < 0 THEN -1 ELSE 1
      peri(u, v) == 2 * (NAbs(u[1] - v[1]) + NAbs(u[2] - v[2]))
  IN IF den # 0 /\ sg * wa >= -peri(b, d) /\ sg * wb >= -peri(d, a) /\ sg * wd >= -peri(a, b)
     THEN {tri[1][2] + ((sg * (wb * (tri[2][2] - tri[1][2]) + wd * (tri[3][2] - tri[1][2]))) \div (sg * den))}
     ELSE {}
Heights(p, c) == UNION {HeightIn(p.tris[i], c) : i \in 1..Len(p.tris)}

\* the boundary points closest to x with the height of the border there (detail
\* surfaces follow the straight edges of the polygon unless a corner lies on a
\* straight line between its neighbours)
EdgePoints(p, x) ==
  UNION {LET a == p.v[j]  b == NNext(p.v, j)
             dx == b[1] - a[1]  dz == b[2] - a[2]  L == dx * dx + dz * dz
             t0 == (x[1] - a[1]) * dx + (x[2] - a[2]) * dz
             u == IF t0 < 0 THEN 0 ELSE IF t0 > L THEN L ELSE t0
             c == OnSegment(a, b, x)
         IN IF c \in ClosestOnBoundary(p.v, x) THEN {<<c[1], p.y[j] + (((NNext(p.y, j) - p.y[j]) * u) \div L), c[2]>>} ELSE {}
         : j \in 1..Len(p.v)}

\* how near polygon p is to <<x, y, z>>: for every way the position may be
\* judged the closest point, whether it is above or below the polygon and the
\* squared distance that ranks it
Rank(p, x, climb) ==
  LET xx == <<x[1], x[3]>>
      over == IF InsideClosed(p.v, xx)
              THEN {LET h == NAbs(x[2] - y) - climb IN
                    [c |-> <<8 * x[1], y, 8 * x[3]>>, over |-> TRUE, d |-> IF h > 0 THEN h * h ELSE 0] : y \in Heights(p, <<8 * x[1], 8 * x[3]>>)}
              ELSE {}
      off == IF InsideStrict(p.v, xx) THEN {}
             ELSE {[c |-> <<cy[1][1], cy[2], cy[1][2]>>, over |-> FALSE,
                    d |-> Dist2(xx, cy[1]) + (x[2] - cy[2]) * (x[2] - cy[2])]
                   : cy \in {<<<<c[1], c[3]>>, c[2]>> : c \in EdgePoints(p, xx)}
                            \cup UNION {{<<c, y>> : y \in Heights(p, c)} : c \in ClosestOnBoundary(p.v, xx)}}
  IN over \cup off

Spread(x, c) == NAbs(8 * x[1] - c[1]) + NAbs(x[2] - c[2]) + NAbs(8 * x[3] - c[3])
\* a is surely not nearer than what is at squared distance d, given where b is
Tol(x, c) == 16 * Spread(x, c) + 128

Overlap(alo, ahi, blo, bhi, slack) == \A i \in 1..3 : alo[i] - slack <= bhi[i] /\ blo[i] - slack <= ahi[i]
=============================================================================
