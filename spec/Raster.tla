------------------------------- MODULE Raster --------------------------------
(* Which voxels a triangle touches (C23), in exact arithmetic.  A triangle   *)
(* is <<x1,y1,z1, x2,y2,z2, x3,y3,z3, area>> on a lattice of q steps per     *)
(* cell and per row, with the corner of the field as origin.                 *)
EXTENDS ColumnOps, FiniteSets

VX(t, i) == t[3 * i - 2]
VY(t, i) == t[3 * i - 1]
VZ(t, i) == t[3 * i]
Nx(i) == IF i = 3 THEN 1 ELSE i + 1
Area2(t) == (VX(t, 2) - VX(t, 1)) * (VZ(t, 3) - VZ(t, 1)) - (VX(t, 3) - VX(t, 1)) * (VZ(t, 2) - VZ(t, 1))
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
FloorDiv(a, b) == a \div b  \* b > 0; TLC rounds down
Sgn(a) == IF a < 0 THEN -1 ELSE 1

\* heights at the extreme points of the part of t within the closed cell, as
\* <<numerator, denominator, 1 if it is a corner of t>>
Corners(t, X, Z, q) == {<<VY(t, i), 1, 1>> : i \in {j \in 1..3 : VX(t, j) \in X..(X + q) /\ VZ(t, j) \in Z..(Z + q)}}
\* crossing of edge i with the line x = L (or z = L), cut to the cell
CrossX(t, i, L, Z, q) ==
  LET j == Nx(i)  d == VX(t, j) - VX(t, i)  D == d * Sgn(d)  k == (L - VX(t, i)) * Sgn(d)
      z == VZ(t, i) * D + (VZ(t, j) - VZ(t, i)) * k
  IN IF k > 0 /\ k < D /\ z >= Z * D /\ z <= (Z + q) * D THEN {<<VY(t, i) * D + (VY(t, j) - VY(t, i)) * k, D, 0>>} ELSE {}
CrossZ(t, i, L, X, q) ==
  LET j == Nx(i)  d == VZ(t, j) - VZ(t, i)  D == d * Sgn(d)  k == (L - VZ(t, i)) * Sgn(d)
      x == VX(t, i) * D + (VX(t, j) - VX(t, i)) * k
  IN IF k > 0 /\ k < D /\ x >= X * D /\ x <= (X + q) * D THEN {<<VY(t, i) * D + (VY(t, j) - VY(t, i)) * k, D, 0>>} ELSE {}
\* height of the triangle above a corner of the cell
Above(t, px, pz) ==
  LET A == Area2(t)
      W(i) == LET j == Nx(i)  k == Nx(j) IN
        ((VX(t, j) - px) * (VZ(t, k) - pz) - (VX(t, k) - px) * (VZ(t, j) - pz)) * Sgn(A)
  IN IF A # 0 /\ W(1) >= 0 /\ W(2) >= 0 /\ W(3) >= 0
     THEN {<<W(1) * VY(t, 1) + W(2) * VY(t, 2) + W(3) * VY(t, 3), A * Sgn(A), 0>>} ELSE {}
Extremes(t, X, Z, q) ==
  Corners(t, X, Z, q)
  \cup UNION {CrossX(t, i, X, Z, q) \cup CrossX(t, i, X + q, Z, q) \cup CrossZ(t, i, Z, X, q) \cup CrossZ(t, i, Z + q, X, q) : i \in 1..3}
  \cup Above(t, X, Z) \cup Above(t, X + q, Z) \cup Above(t, X, Z + q) \cup Above(t, X + q, Z + q)

\* the triangle and the open cell have more than a border in common
Overlaps(t, X, Z, q) ==
  LET I == 1..3 IN
  /\ \E i \in I : VX(t, i) > X
  /\ \E i \in I : VX(t, i) < X + q
  /\ \E i \in I : VZ(t, i) > Z
  /\ \E i \in I : VZ(t, i) < Z + q
  /\ \A i \in I :
       LET nx == VZ(t, Nx(i)) - VZ(t, i)  nz == VX(t, i) - VX(t, Nx(i))
           T == {VX(t, j) * nx + VZ(t, j) * nz : j \in I}
           C == {(X + a) * nx + (Z + b) * nz : a, b \in {0, q}}
       IN MaxS(T) > MinS(C) /\ MinS(T) < MaxS(C)

\* The rows of a cell: must are made solid, may be made solid.  exact says
\* that the arithmetic of the code is exact where it only copies values.
Rows(t, X, Z, q, rows, exact) ==
  LET E == Extremes(t, X, Z, q) IN
  IF E = {} THEN [must |-> {}, may |-> {}]
  ELSE LET flat == VY(t, 1) = VY(t, 2) /\ VY(t, 2) = VY(t, 3)
           Slack(e) == e[1] % (e[2] * q) = 0 /\ ~(exact /\ (e[3] = 1 \/ flat))
           Fl(e) == FloorDiv(e[1], e[2] * q)
           Ce(e) == IF e[1] % (e[2] * q) = 0 THEN Fl(e) ELSE Fl(e) + 1
           lo == MinS({Fl(e) : e \in E})
           hi == MaxS({Ce(e) : e \in E})
           lo2 == MinS({IF Slack(e) THEN Fl(e) - 1 ELSE Fl(e) : e \in E})
           hi2 == MaxS({IF Slack(e) THEN Ce(e) + 1 ELSE Ce(e) : e \in E})
           must == IF hi > lo THEN lo..(hi - 1) ELSE IF lo2 = lo THEN {lo} ELSE {}
           may == lo2..((IF hi2 > lo THEN hi2 ELSE lo + 1) - 1)
       IN [must |-> IF Overlaps(t, X, Z, q) THEN must \cap (0..(rows - 1)) ELSE {},
           may |-> (may \cap (0..(rows - 1))) \cup (IF hi2 >= 0 /\ lo <= 0 THEN {0} ELSE {})
                   \cup (IF (lo <= rows /\ hi2 > rows /\ ~exact) \/ lo = rows THEN {rows} ELSE {})]

\* what a compact heightfield shows of a column: walkable floors
SeqMap(F(_), q) == [i \in 1..Len(q) |-> F(q[i])]
MinI(a, b) == IF a < b THEN a ELSE b
Visible(col) ==
  LET v == [i \in 1..Len(col) |-> <<col[i][2], IF i = Len(col) THEN MinI(65535 - col[i][2], 255) ELSE MinI(col[i + 1][1] - col[i][2], 255), col[i][3]>>]
  IN SelectSeq(v, LAMBDA x : x[3] # 0)

\* rows that are solid in a column shown with all its spans, the lowest of
\* which starts at row 0
SolidRows(v, top) ==
  UNION {(IF i = 1 THEN 0 ELSE v[i - 1][1] + v[i - 1][2])..(v[i][1] - 1) : i \in 1..Len(v)}
Apart(v) == \A i \in 1..Len(v) : v[i][2] >= 1 /\ (i > 1 => v[i - 1][1] + v[i - 1][2] < v[i][1])
==============================================================================
