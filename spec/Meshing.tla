-------------------------------- MODULE Meshing --------------------------------
(* Outlines cut into triangles and the triangles merged into convex polygons  *)
(* (C29, C30), for all regions of up to W x H cells: in any order, any ear    *)
(* that is one can be cut and any two polygons merged that may be.            *)
EXTENDS Outline, TLC
CONSTANTS W, H, Nvp
VARIABLES cells, rest, polys, ph
mvars == <<cells, rest, polys, ph>>

S == INSTANCE Simplify WITH Err <- 0, reg <- 0, out <- 0, keep <- 0
Shapes == {g \in [1..(W * H) -> 0..1] : S!Mem(g, 1) # {} /\ S!Whole(S!ConOf(g), S!Mem(g, 1))}
\* the corners of its outline at which it turns
Turns(g) == LET q == S!Raw(g, 1)  n == Len(q)
                Prev(i) == q[IF i = 1 THEN n ELSE i - 1]
                RECURSIVE T(_)
                T(i) == IF i > n THEN <<>> ELSE (IF Cross(Prev(i), q[i], Nxt(q, i)) # 0 THEN << <<q[i][1], 0, q[i][3]>> >> ELSE <<>>) \o T(i + 1)
            IN T(1)
Init == /\ cells \in Shapes
        /\ rest = Turns(cells)
        /\ polys = {}
        /\ ph = "cut"

Left(a, b, c) == Cross(a, b, c) < 0
LeftOn(a, b, c) == Cross(a, b, c) <= 0
Wrap(n, i) == ((i - 1) % n) + 1
\* the side from corner i to corner i + 2 is inside, next to i
InCone(q, i, j) ==
  LET n == Len(q)  p == q[i]  pn == q[Wrap(n, i + 1)]  pp == q[Wrap(n, i + n - 1)] IN
  IF LeftOn(pp, p, pn) THEN Left(p, q[j], pp) /\ Left(q[j], p, pn)
  ELSE ~(LeftOn(p, q[j], pn) /\ LeftOn(q[j], p, pp))
Clear(q, i, j) ==
  LET n == Len(q) IN
  \A k \in 1..n :
    LET k1 == Wrap(n, k + 1) IN
    ({k, k1} \cap {i, j} # {}) \/ SameXZ(q[i], q[k]) \/ SameXZ(q[j], q[k]) \/ SameXZ(q[i], q[k1]) \/ SameXZ(q[j], q[k1])
      \/ ~Meet(q[i], q[j], q[k], q[k1])
Ear(q, i) == LET n == Len(q)  j == Wrap(n, i + 2) IN InCone(q, i, j) /\ Clear(q, i, j)
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Len2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[3] - b[3]) * (a[3] - b[3])
EarLen(q, i) == Len2(q[i], q[Wrap(Len(q), i + 2)])
\* one of the ears with the shortest cut
Cut ==
  /\ ph = "cut" /\ Len(rest) > 3
  /\ LET E == {i \in DOMAIN rest : Ear(rest, i)} IN
     \E i \in E :
       /\ \A j \in E : EarLen(rest, i) <= EarLen(rest, j)
       /\ LET n == Len(rest)  a == Wrap(n, i + 1) IN
          /\ polys' = polys \cup {<<rest[i], rest[a], rest[Wrap(n, i + 2)]>>}
          /\ rest' = Drop(rest, a)
  /\ UNCHANGED <<cells, ph>>
Last == /\ ph = "cut" /\ Len(rest) = 3
        /\ polys' = polys \cup {rest}
        /\ rest' = <<>> /\ ph' = "merge" /\ cells' = cells
\* p and q have a side in common: corner i and the next of p are corner j + 1 and j of q
Joined(p, q, i, j) ==
  LET n == Len(p)  m == Len(q)
      a == [k \in 1..(n - 1) |-> p[Wrap(n, i + k)]]
      b == [k \in 1..(m - 1) |-> q[Wrap(m, j + k)]]
  IN a \o b
Mergeable(p, q, i, j) ==
  /\ p # q /\ Len(p) + Len(q) - 2 <= Nvp
  /\ p[i] = Nxt(q, j) /\ Nxt(p, i) = q[j]
  /\ LET n == Len(p)  m == Len(q) IN
     /\ Left(p[Wrap(n, i + n - 1)], p[i], q[Wrap(m, j + 2)])
     /\ Left(q[Wrap(m, j + m - 1)], q[j], p[Wrap(n, i + 2)])
Merges == {x \in polys \X polys \X (1..Nvp) \X (1..Nvp) : x[3] \in DOMAIN x[1] /\ x[4] \in DOMAIN x[2] /\ Mergeable(x[1], x[2], x[3], x[4])}
SideLen(x) == Len2(x[1][x[3]], Nxt(x[1], x[3]))
\* starting with one particular corner, so that the same polygon is the same sequence
Norm(q) == LET n == Len(q)
               k == CHOOSE k \in 1..n : \A j \in 1..n : k = j \/ S!Lower(q[k], q[j])
           IN [i \in 1..n |-> q[Wrap(n, k + i - 1)]]
MergeTwo ==
  /\ ph = "merge"
  /\ LET M == Merges IN
     \E x \in M :
       /\ \A y \in M : SideLen(y) <= SideLen(x)
       /\ polys' = (polys \ {x[1], x[2]}) \cup {Norm(Joined(x[1], x[2], x[3], x[4]))}
  /\ UNCHANGED <<cells, rest, ph>>
Done == ph = "merge" /\ Merges = {} /\ ph' = "done" /\ UNCHANGED <<cells, rest, polys>>
MNext == Cut \/ Last \/ MergeTwo \/ Done
Spec == Init /\ [][MNext]_mvars

RECURSIVE SumTwice(_)
SumTwice(P) == IF P = {} THEN 0 ELSE LET p == CHOOSE p \in P : TRUE IN Twice(p) + SumTwice(P \ {p})
\* nothing is lost, nothing is added
Area == SumTwice(polys) + (IF rest = <<>> THEN 0 ELSE Twice(rest)) = 2 * Cardinality(S!Mem(cells, 1))
Cover == ph # "cut" => \A x \in 0..(W - 1) : \A z \in 0..(H - 1) :
  Cardinality({p \in polys : InConvex(p, x, z)}) = cells[x + z * W + 1]
IsConvex == ph # "cut" => \A p \in polys : Len(p) >= 3 /\ Len(p) <= Nvp /\ Convex(p)
\* a side belongs to one polygon, and its other side to at most one
OnePoly == ph # "cut" => \A p \in polys : \A i \in DOMAIN p :
  /\ ~\E q \in polys \ {p} : \E j \in DOMAIN q : q[j] = p[i] /\ Nxt(q, j) = Nxt(p, i)
  /\ Cardinality({q \in polys : \E j \in DOMAIN q : q[j] = Nxt(p, i) /\ Nxt(q, j) = p[i]}) <= 1
\* the outline is made of sides, all other sides have a polygon at both sides
Rim == ph # "cut" =>
  LET t == Turns(cells) IN
  \A p \in polys : \A i \in DOMAIN p :
    (\E j \in DOMAIN t : t[j] = p[i] /\ Nxt(t, j) = Nxt(p, i)) # (\E q \in polys : \E j \in DOMAIN q : q[j] = Nxt(p, i) /\ Nxt(q, j) = p[i])
\* there is always an ear to cut
Goes == (ph = "cut" /\ Len(rest) > 3) => \E i \in DOMAIN rest : Ear(rest, i)
================================================================================
