------------------------------ MODULE FieldOps -------------------------------
(* Heightfields as columns of solid spans <<lo, hi, area>>, the filters, the *)
(* compact heightfield of open spaces, erosion and marking (C24 - C27).      *)
EXTENDS Raster

Top == 65535
Mx(a, b) == IF a > b THEN a ELSE b
Dst(a, b) == IF a > b THEN a - b ELSE b - a

\* neighbour cell of cell i (1..w*h) in direction 0..3, 0 if there is none
Nbr(i, d, w, h) ==
  LET x == (i - 1) % w  y == (i - 1) \div w IN
  CASE d = 0 -> IF x > 0 THEN i - 1 ELSE 0
    [] d = 1 -> IF y < h - 1 THEN i + w ELSE 0
    [] d = 2 -> IF x < w - 1 THEN i + 1 ELSE 0
    [] d = 3 -> IF y > 0 THEN i - w ELSE 0

Ceil(col, j) == IF j = Len(col) THEN Top ELSE col[j + 1][1]

\* ---------------------------------------------------------------- filters
\* low obstacles: a span right above a walkable one, not much higher, gets its area
Low(cols, climb) ==
  [i \in DOMAIN cols |-> [j \in DOMAIN cols[i] |->
    LET s == cols[i][j] IN
    IF s[3] = 0 /\ j > 1 /\ cols[i][j - 1][3] # 0 /\ Dst(s[2], cols[i][j - 1][2]) <= climb
    THEN <<s[1], s[2], cols[i][j - 1][3]>> ELSE s]]

\* low ceilings
LowCeiling(cols, height) ==
  [i \in DOMAIN cols |-> [j \in DOMAIN cols[i] |->
    LET s == cols[i][j] IN IF Ceil(cols[i], j) - s[2] <= height THEN <<s[1], s[2], 0>> ELSE s]]

\* openings of a column: <<floor, ceiling>>; the lowest has no floor (-1)
Openings(col) ==
  {<<-1, IF col = <<>> THEN Top ELSE col[1][1]>>} \cup {<<col[j][2], Ceil(col, j)>> : j \in DOMAIN col}
IsLedge(cols, i, j, w, h, height, climb) ==
  LET b == cols[i][j][2]  t == Ceil(cols[i], j)
      N == {Nbr(i, d, w, h) : d \in 0..3}
      O == {o \in UNION {Openings(cols[n]) : n \in N \ {0}} : MinI(t, o[2]) - Mx(b, o[1]) > height}
      A == {b} \cup {o[1] : o \in {o \in O : o[1] >= 0 /\ Dst(o[1], b) <= climb}}
  IN \/ 0 \in N
     \/ \E o \in O : o[1] = -1 \/ b - o[1] > climb
     \/ MaxS(A) - MinS(A) > climb
Ledges(cols, w, h, height, climb) ==
  [i \in DOMAIN cols |-> [j \in DOMAIN cols[i] |->
    LET s == cols[i][j] IN IF s[3] # 0 /\ IsLedge(cols, i, j, w, h, height, climb) THEN <<s[1], s[2], 0>> ELSE s]]

\* ------------------------------------------------------ compact heightfield
\* open spaces are <<floor, clearance, area>>
Fits(a, b, height, climb) ==
  MinI(a[1] + a[2], b[1] + b[2]) - Mx(a[1], b[1]) >= height /\ Dst(a[1], b[1]) <= climb
\* what a space may be connected to: numbers of spaces of the neighbour column
Connects(a, col, height, climb) == {k \in 1..Len(col) : Fits(a, col[k], height, climb)}

\* ---------------------------------------------------------------- erosion
\* spaces are numbered <<cell, k>>; con(s, d) is the connected space or <<0, 0>>
None == <<0, 0>>
\* one step of the distance: straight steps count 2, diagonal ones (two
\* straight steps in different directions) 3
Diagonals(con(_, _), s) ==
  LET T(a, b) == IF con(s, a) = None THEN None ELSE con(con(s, a), b)
  IN {T(d, (d + 1) % 4) : d \in 0..3} \cup {T(d, (d + 3) % 4) : d \in 0..3}
Border(con(_, _), area(_), s) == area(s) = 0 \/ \E d \in 0..3 : con(s, d) = None \/ area(con(s, d)) = 0
\* ---------------------------------------------------------------- marking
\* p is a polygon <<x1, z1, x2, z2, ..>>; side of the point x, z of its edges
Sides(p, x, z) ==
  LET n == Len(p) \div 2 IN
  {LET j == IF i = n THEN 1 ELSE i + 1 IN
   (p[2 * j - 1] - p[2 * i - 1]) * (z - p[2 * i]) - (x - p[2 * i - 1]) * (p[2 * j] - p[2 * i]) : i \in 1..n}
Inside(p, x, z) == LET S == Sides(p, x, z) IN (\A k \in S : k > 0) \/ (\A k \in S : k < 0)
Outside(p, x, z) == LET S == Sides(p, x, z) IN (\E k \in S : k > 0) /\ (\E k \in S : k < 0)
==============================================================================
