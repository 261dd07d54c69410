-------------------------------- MODULE Outline --------------------------------
(* Outlines of regions, their simplification, and polygon meshes made of them *)
(* (C29, C30).  Corners are <<x, y, z, ...>>; the area of an outline that runs *)
(* the right way round is positive.                                           *)
EXTENDS Partition

\* ------------------------------------------------------------------ exact plane geometry
Cross(a, b, c) == (b[1] - a[1]) * (c[3] - a[3]) - (c[1] - a[1]) * (b[3] - a[3])
SameXZ(a, b) == a[1] = b[1] /\ a[3] = b[3]
Nxt(q, i) == q[(i % Len(q)) + 1]
RECURSIVE TwiceUp(_, _)
TwiceUp(q, i) == IF i = 0 THEN 0 ELSE Nxt(q, i)[1] * q[i][3] - q[i][1] * Nxt(q, i)[3] + TwiceUp(q, i - 1)
\* twice the area
Twice(q) == TwiceUp(q, Len(q))
InBox(a, b, p) == /\ Mx(a[1], b[1]) >= p[1] /\ MinI(a[1], b[1]) <= p[1]
                  /\ Mx(a[3], b[3]) >= p[3] /\ MinI(a[3], b[3]) <= p[3]
OnSegment(a, b, p) == Cross(a, b, p) = 0 /\ InBox(a, b, p)
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Proper(a, b, c, d) == Sign(Cross(a, b, c)) * Sign(Cross(a, b, d)) < 0 /\ Sign(Cross(c, d, a)) * Sign(Cross(c, d, b)) < 0
Meet(a, b, c, d) == Proper(a, b, c, d) \/ OnSegment(a, b, c) \/ OnSegment(a, b, d) \/ OnSegment(c, d, a) \/ OnSegment(c, d, b)
\* no two sides have more in common than the corner between neighbours
Simple(q) ==
  LET n == Len(q) IN
  /\ n >= 3
  /\ \A i \in 1..n : ~SameXZ(q[i], Nxt(q, i))
  /\ \A i \in 1..n : LET a == q[i]  b == Nxt(q, i)  c == Nxt(q, (i % n) + 1) IN
       Cross(a, b, c) # 0 \/ ~(OnSegment(a, b, c) \/ OnSegment(b, c, a))
  /\ \A i \in 1..n :
       \A j \in (i + 2)..n : (i = 1 /\ j = n) \/ ~Meet(q[i], Nxt(q, i), q[j], Nxt(q, j))
Convex(q) == \A i \in 1..Len(q) : Cross(q[i], Nxt(q, i), Nxt(q, (i % Len(q)) + 1)) < 0

\* a point of cell <<x, z>> that is on no line through two lattice points
NN == 1009
SideOf(a, b, x, z) == (b[1] - a[1]) * (NN * (z - a[3]) + 392) - (NN * (x - a[1]) + 500) * (b[3] - a[3])
\* how often q winds around that point
WindAt(q, x, z) ==
  LET n == Len(q)
      \* crossings of the ray from the point towards larger x
      Up(i) == LET a == q[i]  b == Nxt(q, i) IN
        IF a[3] <= z /\ b[3] > z THEN (IF SideOf(a, b, x, z) < 0 THEN 1 ELSE 0)
        ELSE IF b[3] <= z /\ a[3] > z THEN (IF SideOf(a, b, x, z) > 0 THEN -1 ELSE 0)
        ELSE 0
      RECURSIVE Sum(_)
      Sum(i) == IF i = 0 THEN 0 ELSE Up(i) + Sum(i - 1)
  IN Sum(n)
InConvex(q, x, z) == \A i \in 1..Len(q) : SideOf(q[i], Nxt(q, i), x, z) < 0

\* ------------------------------------------------------------------ outlines
\* con[u][d] is the span next to u, sides are <<u, d>> with con[u][d] outside of M
Rims(con, M) == {x \in M \X (0..3) : con[x[1]][x[2]] \notin M}
RECURSIVE Turn(_, _, _, _)
Turn(con, M, u, c) == LET v == con[u][c] IN IF v \notin M THEN <<u, c>> ELSE Turn(con, M, v, (c + 3) % 4)
\* the side that follows x, with the region at the right hand
Follow(con, M, x) == Turn(con, M, x[1], (x[2] + 1) % 4)
RECURSIVE RoundFrom(_, _, _, _)
RoundFrom(con, M, first, x) ==
  LET y == Follow(con, M, x) IN IF y = first THEN <<x>> ELSE <<x>> \o RoundFrom(con, M, first, y)
Cycle(con, M, x) == RoundFrom(con, M, x, x)
RECURSIVE CyclesOf(_, _, _)
CyclesOf(con, M, E) == IF E = {} THEN {} ELSE
  LET q == Cycle(con, M, CHOOSE x \in E : TRUE) IN {q} \cup CyclesOf(con, M, E \ {q[i] : i \in DOMAIN q})

CornerX(f, x) == ((x[1][1] - 1) % f.w) + (IF x[2] \in {1, 2} THEN 1 ELSE 0)
CornerZ(f, x) == ((x[1][1] - 1) \div f.w) + (IF x[2] \in {0, 1} THEN 1 ELSE 0)
\* the spans round the corner at which side x starts, as far as they are connected
Ring(con, x) ==
  LET u == x[1]  d == x[2]  c == (d + 1) % 4  a == con[u][d]  b == con[u][c]
      p == IF a = None THEN None ELSE con[a][c]
      q == IF b = None THEN None ELSE con[b][d]
  IN <<u, a, IF q = None THEN p ELSE q, b>>
RingSet(con, x) ==
  LET u == x[1]  d == x[2]  c == (d + 1) % 4  a == con[u][d]  b == con[u][c] IN
  {u, a, b, IF a = None THEN None ELSE con[a][c], IF b = None THEN None ELSE con[b][d]} \ {None}
SpanY(f, u) == f.cells[u[1]][u[2]][1]
MaxOfSet(S) == CHOOSE a \in S : \A b \in S : a >= b
CornerY(f, con, x) == MaxOfSet({SpanY(f, u) : u \in RingSet(con, x)})

\* neighbour data of a side: region, on the border of an area
RegOf(f, u) == IF u = None THEN 0 ELSE f.reg[u[1]][u[2]]
BetweenAreas(f, con, x) == LET v == con[x[1]][x[2]] IN v # None /\ PArea(f, v) # PArea(f, x[1])
\* a corner on the straight border of the tile that no area needs
OnTileBorder(f, con, x) ==
  LET g == Ring(con, x) IN
  /\ \A i \in 1..4 : g[i] # None /\ RegOf(f, g[i]) # 0
  /\ \E i \in 1..4 :
       LET a == g[i]  b == Nxt(g, i)  c == Nxt(g, (i % 4) + 1)  d == Nxt(g, ((i + 1) % 4) + 1) IN
       /\ RegOf(f, a) >= BorderBit
       /\ RegOf(f, a) = RegOf(f, b)
       /\ RegOf(f, c) < BorderBit
       /\ RegOf(f, d) < BorderBit
       /\ PArea(f, c) = PArea(f, d)

\* flags of a recorded corner
LabelReg(v) == v[4] % 65536
Removable(v) == (v[4] \div 65536) % 2 = 1
AreaEdge(v) == (v[4] \div 131072) % 2 = 1
Label(v) == <<LabelReg(v), AreaEdge(v)>>

\* ------------------------------------------------------------------ simplification
\* p is no further than err/4 from the segment a b (one hundredth of the square allowed for rounding)
Close(a, b, p, err) ==
  LET dx == b[1] - a[1]  dz == b[3] - a[3]  px == p[1] - a[1]  pz == p[3] - a[3]
      len2 == dx * dx + dz * dz
      t == px * dx + pz * dz
      Sq(m, n) == m * m + n * n
      Lim(d2, n) == 16 * d2 <= err * err * n + (err * err * n) \div 100
  IN IF len2 = 0 \/ t <= 0 THEN Lim(Sq(px, pz), 1)
     ELSE IF t >= len2 THEN Lim(Sq(p[1] - b[1], p[3] - b[3]), 1)
     ELSE LET k == px * dz - pz * dx IN Lim(k * k, len2)
================================================================================
