-------------------------------- MODULE Simplify --------------------------------
(* Outlines of regions and their simplification (C29), for all layouts of two *)
(* regions on one level of W x H cells: corners at which the neighbour changes *)
(* are kept, then corners too far off are added.                              *)
EXTENDS Outline, TLC
CONSTANTS W, H, Err    \* Err in quarters of a cell
VARIABLES reg, out, keep, ph
svars == <<reg, out, keep, ph>>

MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
\* a field as Outline sees it: one span per cell
F(g) == [w |-> W, h |-> H, cells |-> [i \in 1..(W * H) |-> IF g[i] = 0 THEN <<>> ELSE << <<0, 10, 1>> >>], reg |-> [i \in 1..(W * H) |-> IF g[i] = 0 THEN <<>> ELSE <<g[i]>>]]
UsedCells(g) == {<<i, 1>> : i \in {i \in 1..(W * H) : g[i] # 0}}
ConOf(g) == [u \in UsedCells(g) |-> [d \in 0..3 |->
  LET x == (u[1] - 1) % W  z == (u[1] - 1) \div W
      n == CASE d = 0 -> IF x > 0 THEN u[1] - 1 ELSE 0
             [] d = 1 -> IF z < H - 1 THEN u[1] + W ELSE 0
             [] d = 2 -> IF x < W - 1 THEN u[1] + 1 ELSE 0
             [] d = 3 -> IF z > 0 THEN u[1] - W ELSE 0
  IN IF n = 0 THEN None ELSE IF g[n] = 0 THEN None ELSE <<n, 1>>]]
Mem(g, r) == {<<i, 1>> : i \in {i \in 1..(W * H) : g[i] = r}}
EulerOf(con, M) == Cardinality(M)
  - Cardinality({x \in M \X {1, 2} : con[x[1]][x[2]] \in M})
  + Cardinality({u \in M : con[u][1] \in M /\ con[u][2] \in M /\ con[con[u][1]][2] \in M})
Whole(con, M) == R!Connected([u \in DOMAIN con |-> {con[u][d] : d \in 0..3} \ {None}], M) /\ (M = {} \/ EulerOf(con, M) = 1)

\* corners with the neighbour of the side that ends there
Raw(g, r) == LET con == ConOf(g)  q == Cycle(con, Mem(g, r), CHOOSE x \in Rims(con, Mem(g, r)) : TRUE) IN
  [i \in DOMAIN q |-> <<CornerX(F(g), q[i]), 0, CornerZ(F(g), q[i]), RegOf(F(g), con[q[i][1]][q[i][2]])>>]
Ids(g) == {g[i] : i \in 1..(W * H)} \ {0}
Lower(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[3] < b[3])
First(q) ==
  LET K == {i \in DOMAIN q : Label(q[i]) # Label(Nxt(q, i))} IN
  IF K # {} THEN K
  ELSE {CHOOSE i \in DOMAIN q : \A j \in DOMAIN q : ~Lower(q[j], q[i]) /\ (i <= j \/ Lower(q[i], q[j])),
        CHOOSE i \in DOMAIN q : \A j \in DOMAIN q : ~Lower(q[i], q[j]) /\ (i <= j \/ Lower(q[j], q[i]))}
Init ==
  /\ reg \in {g \in [1..(W * H) -> 0..2] : 1 \in Ids(g) /\ \A r \in 1..2 : Whole(ConOf(g), Mem(g, r))}
  /\ out = [r \in Ids(reg) |-> Raw(reg, r)]
  /\ keep = [r \in Ids(reg) |-> First(out[r])]
  /\ ph = "simplify"

\* the next kept corner after i (i itself if there is no other)
Dist(n, i, j) == IF j > i THEN j - i ELSE j - i + n
After1(q, K, i) == CHOOSE j \in K : \A k \in K : Dist(Len(q), i, j) <= Dist(Len(q), i, k)
Inner(q, K, i) == LET j == After1(q, K, i)  n == Len(q) IN {k \in 1..n : k # i /\ k # j /\ Dist(n, i, k) < Dist(n, i, j)}
LabAfter(q, i) == LabelReg(Nxt(q, i))
Off(q, K, i, k) == ~Close(q[i], q[After1(q, K, i)], q[k], Err)
Bad(q, K) == {i \in K : LabAfter(q, i) = 0 /\ \E k \in Inner(q, K, i) : Off(q, K, i, k)}
\* distance of p from the segment a b, squared, times the square of its length
Dev(a, b, p) ==
  LET dx == b[1] - a[1]  dz == b[3] - a[3]  px == p[1] - a[1]  pz == p[3] - a[3]
      len2 == dx * dx + dz * dz  t == px * dx + pz * dz
  IN IF len2 = 0 THEN px * px + pz * pz
     ELSE IF t <= 0 THEN (px * px + pz * pz) * len2
     ELSE IF t >= len2 THEN ((p[1] - b[1]) * (p[1] - b[1]) + (p[3] - b[3]) * (p[3] - b[3])) * len2
     ELSE (px * dz - pz * dx) * (px * dz - pz * dx)
\* one of the corners that are off most; sides are done in order, regions on their own
Add == /\ ph = "simplify"
       /\ LET Rs == {r \in DOMAIN out : Bad(out[r], keep[r]) # {}} IN
          /\ Rs # {}
          /\ LET r == MinOf(Rs)  q == out[r]  i == MinOf(Bad(q, keep[r]))  b == q[After1(q, keep[r], i)]  I == Inner(q, keep[r], i) IN
             \E k \in I :
               /\ Off(q, keep[r], i, k)
               /\ \A j \in I : Dev(q[i], b, q[j]) <= Dev(q[i], b, q[k])
               /\ keep' = [keep EXCEPT ![r] = @ \cup {k}]
       /\ UNCHANGED <<reg, out, ph>>
Done == /\ ph = "simplify"
        /\ \A r \in DOMAIN out : Bad(out[r], keep[r]) = {}
        /\ ph' = "done" /\ UNCHANGED <<reg, out, keep>>
SNext == Add \/ Done
Spec == Init /\ [][SNext]_svars

\* the outline goes round the region once: every side of it, and the region is what it encloses
Rounds == ph = "done" => \A r \in DOMAIN out :
  /\ Len(out[r]) = Cardinality(Rims(ConOf(reg), Mem(reg, r)))
  /\ Twice(out[r]) = 2 * Cardinality(Mem(reg, r))
  /\ \A x \in 0..(W - 1) : \A z \in 0..(H - 1) : (WindAt(out[r], x, z) = 1) = (reg[x + z * W + 1] = r)
Poly(r) == LET q == out[r]  RECURSIVE S(_)
               S(i) == IF i > Len(q) THEN <<>> ELSE (IF i \in keep[r] THEN << <<q[i][1], 0, q[i][3], LabAfter(q, i)>> >> ELSE <<>>) \o S(i + 1)
           IN S(1)
Touching(q) == \E i \in DOMAIN q : \E j \in (i + 1)..Len(q) : SameXZ(q[i], q[j])
\* sides between regions are the same from both sides
Matching == ph = "done" => \A r \in DOMAIN out : \A o \in DOMAIN out :
  (r # o /\ ~Touching(out[r]) /\ ~Touching(out[o])) =>
    LET v == Poly(r)  u == Poly(o) IN
    Len(v) >= 2 /\ Len(u) >= 2 =>
    \A j \in DOMAIN v : v[j][4] = o => \E k \in DOMAIN u : u[k][4] = r /\ SameXZ(u[k], Nxt(v, j)) /\ SameXZ(Nxt(u, k), v[j])
\* every corner of the outline is close to the side that replaces it; with no tolerance nothing is lost
Near == ph = "done" => \A r \in DOMAIN out :
  \A i \in keep[r] : LabAfter(out[r], i) = 0 => \A k \in Inner(out[r], keep[r], i) : ~Off(out[r], keep[r], i, k)
Exact == (ph = "done" /\ Err = 0 /\ Cardinality(DOMAIN out) = 1) => \A r \in DOMAIN out : Twice(Poly(r)) = Twice(out[r])
Edges == ph = "simplify" => PrintT("EDGE " \o ToString([y \in 1..H |-> [x \in 1..W |-> reg[(y - 1) * W + x]]]))
Fields == Edges /\ FALSE
================================================================================
