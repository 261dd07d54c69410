---------------------------- MODULE TileCompile -----------------------------
(* C07: what a tile compiled from a polygon mesh must contain.               *)
(*                                                                           *)
(* Source coordinates are integers: vertices in cells from the tile's        *)
(* minimum, everything else in quarters of cells (quarters of cell heights   *)
(* along y) from the origin of the world.  Neighbour values are those of the *)
(* source format.                                                            *)
EXTENDS Integers, Sequences, FiniteSets

\* the place of a source vertex in the world
VertAt(src, v) == <<v[1], src.bmin[1] + 4 * v[2], src.bmin[2] + 4 * v[3], src.bmin[3] + 4 * v[4]>>

\* what becomes of a neighbour value: 0 wall, k polygon k, 32768 + side portal
Nei(n) ==
  IF n < 32768 THEN n + 1
  ELSE CASE n % 16 = 15 -> 0
         [] n % 16 = 0 -> 32768 + 4
         [] n % 16 = 1 -> 32768 + 2
         [] n % 16 = 2 -> 32768
         [] n % 16 = 3 -> 32768 + 6
         [] OTHER -> -1

Poly(p) == [v |-> p.v, n |-> [j \in 1..Len(p.n) |-> Nei(p.n[j])], f |-> p.f, a |-> p.a, t |-> 0]

\* height range of the mesh, in quarters
LOCAL Heights(src) ==
  IF src.hasd /\ Len(src.dv) > 0 THEN {src.dv[i][2] : i \in 1..Len(src.dv)}
  ELSE {src.bmin[2] + 4 * src.verts[i][3] : i \in 1..Len(src.verts)}
LOCAL MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
LOCAL MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

\* which side of the tile a point is on; 255 when inside
Side(src, p) ==
  LET xp == p[1] >= src.bmax[1]  xm == p[1] < src.bmin[1]
      zp == p[3] >= src.bmax[3]  zm == p[3] < src.bmin[3] IN
  CASE xp /\ zp -> 1
    [] xp /\ zm -> 7
    [] xm /\ zp -> 3
    [] xm /\ zm -> 5
    [] xp -> 0
    [] zp -> 2
    [] xm -> 4
    [] zm -> 6
    [] OTHER -> 255

\* connections that start in the tile, in order
StartsHere(src, o) ==
  LET H == Heights(src) IN
  /\ Side(src, o.a) = 255
  /\ 10 * o.a[2] >= 10 * MinOf(H) - 4 * src.climb10
  /\ 10 * o.a[2] <= 10 * MaxOf(H) + 4 * src.climb10

\* (unused vertices of a tile with very many of them are not in the trace; they
\* do not change the height range)
Stored(src) == SelectSeq(src.off, LAMBDA o : StartsHere(src, o))

\* triangles of a polygon of n corners that has no detail of its own
Fan(n) == [k \in 1..(n - 2) |-> <<0, k, k + 1, 4 + (IF k = 1 THEN 1 ELSE 0) + (IF k = n - 2 THEN 16 ELSE 0)>>]

\* detail of polygon i: extra vertices and triangles
Detail(src, i) ==
  LET n == Len(src.polys[i].v) IN
  IF ~src.hasd THEN [dv |-> <<>>, dt |-> Fan(n)]
  ELSE LET m == src.dm[i] IN
       [dv |-> [k \in 1..(m[2] - n) |-> src.dv[m[1] + n + k]], dt |-> [k \in 1..m[4] |-> src.dt[m[3] + k]]]

\* all points of the surface of polygon i, in quarters
Points(src, i) ==
  IF src.hasd THEN {src.dv[src.dm[i][1] + k] : k \in 1..src.dm[i][2]}
  ELSE LET V == [x \in {src.verts[k][1] : k \in 1..Len(src.verts)} |->
                   VertAt(src, src.verts[CHOOSE k \in 1..Len(src.verts) : src.verts[k][1] = x])] IN
       {<<V[v][2], V[v][3], V[v][4]>> : v \in {src.polys[i].v[k] : k \in 1..Len(src.polys[i].v)}}
=============================================================================
