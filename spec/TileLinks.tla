----------------------------- MODULE TileLinks ------------------------------
(* Which polygons are connected, as a function of the tiles present.         *)
(*                                                                           *)
(* A world is a sequence of tile definitions [x, y, l, verts, polys] on an   *)
(* integer lattice; polys[p] = [v, n, f, a] where edge j of polygon p runs   *)
(* from verts[v[j]] to verts[v[j+1]] and n[j] is the neighbour: 0 a wall,    *)
(* k>0 polygon k of the tile, -1-side a portal on that side of the tile      *)
(* (0 x+, 2 z+, 4 x-, 6 z-).  Heights and climb are in cell heights; climb10 *)
(* is ten times the climb.                                                   *)
EXTENDS Integers, Sequences, FiniteSets

LOCAL MinI(a, b) == IF a < b THEN a ELSE b
LOCAL MaxI(a, b) == IF a > b THEN a ELSE b
LOCAL AbsI(a) == IF a < 0 THEN -a ELSE a

Opp(side) == (side + 4) % 8
Dx == <<1, 1, 0, -1, -1, -1, 0, 1>>
Dy == <<0, 1, 1, 1, 0, -1, -1, -1>>

EV(t, p, j) == t.verts[t.polys[p].v[j]]
EW(t, p, j) == t.verts[t.polys[p].v[(j % Len(t.polys[p].v)) + 1]]
Edges(t, p) == 1..Len(t.polys[p].v)

\* portal edges of a tile: along axis 3 (z) for sides 0 and 4, else along x
Portals(t) == {[p |-> p, j |-> j, side |-> -1 - t.polys[p].n[j]] :
                 <<p, j>> \in {<<p, j>> \in (1..Len(t.polys)) \X (1..6) :
                                  j <= Len(t.polys[p].n) /\ t.polys[p].n[j] < 0}}

Axis(side) == IF side \in {0, 4} THEN 3 ELSE 1
Across(side) == IF side \in {0, 4} THEN 1 ELSE 3

\* an edge as a graph over its axis: from (lo, ylo) to (hi, yhi)
Slab(t, e) ==
  LET a == EV(t, e.p, e.j)  b == EW(t, e.p, e.j)  ax == Axis(e.side) IN
  IF a[ax] < b[ax] THEN [lo |-> a[ax], ylo |-> a[2], hi |-> b[ax], yhi |-> b[2], at |-> a[Across(e.side)], fwd |-> TRUE]
  ELSE [lo |-> b[ax], ylo |-> b[2], hi |-> a[ax], yhi |-> a[2], at |-> a[Across(e.side)], fwd |-> FALSE]

\* difference of height of A and B at c, times the product of their lengths
HDiff(A, B, c) ==
  LET LA == A.hi - A.lo  LB == B.hi - B.lo IN
  (A.ylo * LA + (A.yhi - A.ylo) * (c - A.lo)) * LB - (B.ylo * LB + (B.yhi - B.ylo) * (c - B.lo)) * LA

\* Overlap of two edges: "no", "yes", or "free" when the height difference is
\* too near the limit for single precision to tell
Overlap(A, B, climb10) ==
  LET m == MaxI(A.lo, B.lo)  M == MinI(A.hi, B.hi) IN
  IF A.at # B.at \/ m >= M THEN "no"
  ELSE LET D == (A.hi - A.lo) * (B.hi - B.lo)
           d0 == HDiff(A, B, m)  d1 == HDiff(A, B, M)
           small == MinI(AbsI(d0), AbsI(d1)) IN
       IF (d0 < 0 /\ d1 > 0) \/ (d0 > 0 /\ d1 < 0) THEN "yes"
       ELSE IF 160 * small <= (32 * climb10 - 10) * D THEN "yes"
       ELSE IF 160 * small <= (32 * climb10 + 10) * D THEN "free"
       ELSE "no"

Pow2 == {1, 2, 4, 8, 16, 32, 64, 128}
\* compressed limits of the part of A that overlaps B, along A's own direction:
\* [min, max] of floor(255 t); rounding may lose one when 255 t is an integer
Limit(A, c) ==  \* set of possible values for coordinate c on A
  LET L == A.hi - A.lo
      k == IF A.fwd THEN c - A.lo ELSE A.hi - c
      q == (255 * k) \div L IN
  IF (255 * k) % L = 0 /\ L \notin Pow2 /\ q > 0 /\ k # L THEN {q, q - 1} ELSE {q}

\* all connections from portal edges of tile a to tile b
Candidates(T, a, b, climb10) ==
  LET ta == T[a]  tb == T[b]
      sameSpot == ta.x = tb.x /\ ta.y = tb.y
      Rel(side) == \/ sameSpot /\ ta.l # tb.l
                   \/ tb.x = ta.x + Dx[side + 1] /\ tb.y = ta.y + Dy[side + 1]
      sb == [f \in Portals(tb) |-> Slab(tb, f)]
  IN UNION {
       IF ~Rel(e.side) THEN {}
       ELSE LET A == Slab(ta, e) IN
            UNION {LET B == sb[f]  o == Overlap(A, B, climb10) IN
                   IF o = "no" THEN {}
                   ELSE {[p |-> e.p, j |-> e.j, side |-> e.side, q |-> f.p, must |-> o = "yes",
                          l0 |-> Limit(A, IF A.fwd THEN MaxI(A.lo, B.lo) ELSE MinI(A.hi, B.hi)),
                          l1 |-> Limit(A, IF A.fwd THEN MinI(A.hi, B.hi) ELSE MaxI(A.lo, B.lo))]} :
                   f \in {f \in Portals(tb) : f.side = Opp(e.side)}} :
       e \in Portals(ta)}

\* connections inside a tile: one per edge with a neighbour
Internal(t) == {<<p, j, t.polys[p].n[j]>> :
                  <<p, j>> \in {<<p, j>> \in (1..Len(t.polys)) \X (1..6) :
                                   j <= Len(t.polys[p].n) /\ t.polys[p].n[j] > 0}}
=============================================================================
