--------------------------------- MODULE Detail ---------------------------------
(* Detail meshes (C31).  Sides: heights are sampled along a side, the samples *)
(* that are off most are added until all are within the error; both polygons  *)
(* of a side do this in the same order.  Insides: the hull is cut into        *)
(* triangles by advancing on either side.                                     *)
EXTENDS Outline, TLC
CONSTANTS N, Y, Err, A    \* samples 0..N, heights 0..Y, Err in quarters, hulls on a square of side A
VARIABLES y, idx, back, hull, left, right, tris, ph
dvars == <<y, idx, back, hull, left, right, tris, ph>>

\* ------------------------------------------------------------------ sides
Pt(k) == <<k, 0, y[k]>>      \* as a point of the plane
Devi(a, b, k) ==
  LET p == Pt(k)  q == Pt(a)  r == Pt(b)  dx == r[1] - q[1]  dz == r[3] - q[3]
      px == p[1] - q[1]  pz == p[3] - q[3]  len2 == dx * dx + dz * dz  t == px * dx + pz * dz
  IN IF t <= 0 THEN (px * px + pz * pz) * len2
     ELSE IF t >= len2 THEN ((p[1] - r[1]) * (p[1] - r[1]) + (p[3] - r[3]) * (p[3] - r[3])) * len2
     ELSE (px * dz - pz * dx) * (px * dz - pz * dx)
NextIn(S, a) == CHOOSE b \in S : b > a /\ \A c \in S : c > a => b <= c
Far(a, b) == {k \in (a + 1)..(b - 1) : ~Close(Pt(a), Pt(b), Pt(k), Err)}
Most(a, b, k) == \A m \in (a + 1)..(b - 1) : Devi(a, b, m) < Devi(a, b, k) \/ (Devi(a, b, m) = Devi(a, b, k) /\ k <= m)
MostBack(a, b, k) == \A m \in (a + 1)..(b - 1) : Devi(a, b, m) < Devi(a, b, k) \/ (Devi(a, b, m) = Devi(a, b, k) /\ k >= m)
Open(S) == {a \in S : a # N /\ Far(a, NextIn(S, a)) # {}}
\* the algorithm: the first gap with a sample too far off, the first of the farthest
Split == /\ ph = "side" /\ Open(idx) # {}
         /\ LET a == CHOOSE a \in Open(idx) : \A b \in Open(idx) : a <= b
                b == NextIn(idx, a)
            IN \E k \in (a + 1)..(b - 1) : Most(a, b, k) /\ idx' = idx \cup {k}
         /\ UNCHANGED <<y, back, hull, left, right, tris, ph>>
\* what walking the other way would give
SplitBack == /\ ph = "side" /\ Open(idx) = {} /\ Open(back) # {}
             /\ LET a == CHOOSE a \in Open(back) : \A b \in Open(back) : a >= b
                    b == NextIn(back, a)
                IN \E k \in (a + 1)..(b - 1) : MostBack(a, b, k) /\ back' = back \cup {k}
             /\ UNCHANGED <<y, idx, hull, left, right, tris, ph>>
Within == (ph = "side" /\ Open(idx) = {}) => \A a \in idx \ {N} : \A k \in (a + 1)..(NextIn(idx, a) - 1) : Close(Pt(a), Pt(NextIn(idx, a)), Pt(k), Err)
\* seams, if the order were not the same: there are such profiles (see SeamCase)
SeamCase == ph = "side" /\ Open(idx) = {} /\ Open(back) = {} /\ idx # back
NoSeamCase == ~SeamCase

\* the profiles for which the order matters
Profiles == ~(SeamCase \/ (ph = "side" /\ Open(idx) = {} /\ Open(back) = {} /\ Cardinality(idx) > 3))
              \/ PrintT("EDGE " \o ToString([k \in 1..(N + 1) |-> y[k - 1]]))

\* ------------------------------------------------------------------ hulls
Rim == {<<a, 0, 0>> : a \in 0..A} \cup {<<a, 0, A>> : a \in 0..A} \cup {<<0, 0, a>> : a \in 0..A} \cup {<<A, 0, a>> : a \in 0..A}
\* round the square, the way outlines run
Place(p) == IF p[1] = 0 /\ p[3] < A THEN p[3] ELSE IF p[3] = A /\ p[1] < A THEN A + p[1] ELSE IF p[1] = A /\ p[3] > 0 THEN 3 * A - p[3] ELSE 4 * A - p[1]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : \A q \in S : Place(p) <= Place(q) IN <<p>> \o Sorted(S \ {p})
Turned(q, k) == [i \in DOMAIN q |-> q[((i + k - 1) % Len(q)) + 1]]
Hulls == {h \in {Sorted(S) : S \in {S \in SUBSET Rim : Cardinality(S) >= 3}} : Twice(h) # 0}
Init == \/ /\ ph = "side" /\ y \in [0..N -> 0..Y] /\ idx = {0, N} /\ back = {0, N}
           /\ hull = <<>> /\ left = 0 /\ right = 0 /\ tris = {}
        \/ /\ ph = "hull" /\ y = <<>> /\ idx = {} /\ back = {}
           /\ \E h \in Hulls : \E k \in 0..(Len(h) - 1) : hull = Turned(h, k)
           \* the first triangle
           /\ left = 2 /\ right = Len(hull) /\ tris = {<<1, 2, Len(hull)>>}
Advance == /\ ph = "hull" /\ left + 1 < right
           /\ \/ left' = left + 1 /\ right' = right /\ tris' = tris \cup {<<left, left + 1, right>>}
              \/ left' = left /\ right' = right - 1 /\ tris' = tris \cup {<<left, right - 1, right>>}
           /\ UNCHANGED <<y, idx, back, hull, ph>>
DNext == Split \/ SplitBack \/ Advance
Spec == Init /\ [][DNext]_dvars

Corners3(t) == [k \in 1..3 |-> hull[t[k]]]
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN Twice(Corners3(t)) + Total(S \ {t})
Uncut == SubSeq(hull, left, right)
Tiled == ph = "hull" =>
  /\ \A t \in tris : Twice(Corners3(t)) * Twice(hull) >= 0
  /\ Total(tris) + (IF Len(Uncut) < 3 THEN 0 ELSE Twice(Uncut)) = Twice(hull)
  /\ left + 1 = right => Cardinality(tris) = Len(hull) - 2
================================================================================
