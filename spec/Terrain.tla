------------------------------- MODULE Terrain -------------------------------
(* C37: where agents can walk on terrain made of level blocks.  A layout e has *)
(* the block of every cell (xb, zb, nx), the slabs <<bottom, top>> of the      *)
(* blocks from below, and the agent: height h, climb c, radius r in cells.     *)
EXTENDS Integers, Sequences, FiniteSets

Size(a) == IF a < 0 THEN -a ELSE a
Lower(a, b) == IF a < b THEN a ELSE b
Upper(a, b) == IF a > b THEN a ELSE b

W(e) == Len(e.xb)
H(e) == Len(e.zb)
Idx(e, x, z) == z * W(e) + x + 1
XOf(e, i) == (i - 1) % W(e)
ZOf(e, i) == (i - 1) \div W(e)
Block(e, i) == e.blocks[(e.zb[ZOf(e, i) + 1] - 1) * e.nx + e.xb[XOf(e, i) + 1]]
High == 10000
\* floors: <<cell, k>>; top of slab k and what is above it
Tp(e, f) == Block(e, f[1])[f[2]][2]
Cl(e, f) == LET b == Block(e, f[1]) IN IF f[2] < Len(b) THEN b[f[2] + 1][1] ELSE High
Floors(e) == UNION {{<<i, k>> : k \in DOMAIN Block(e, i)} : i \in 1..(W(e) * H(e))}
Side(e, i, d) ==
  LET x == XOf(e, i)  z == ZOf(e, i) IN
  CASE d = 0 -> IF x > 0 THEN i - 1 ELSE 0
    [] d = 1 -> IF z < H(e) - 1 THEN i + W(e) ELSE 0
    [] d = 2 -> IF x < W(e) - 1 THEN i + 1 ELSE 0
    [] d = 3 -> IF z > 0 THEN i - W(e) ELSE 0
\* the agent stands at t and can step to u, in what is open there
Step2(e, t, tc, u, uc) == Size(t - u) <= e.c /\ Lower(tc, uc) - Upper(t, u) >= e.h

Good(e) == {f \in Floors(e) : Cl(e, f) - Tp(e, f) >= e.h}
Steps(e, G, f, d) ==
  LET j == Side(e, f[1], d) IN
  IF j = 0 THEN {} ELSE {g \in {<<j, k>> : k \in DOMAIN Block(e, j)} : g \in G /\ Step2(e, Tp(e, f), Cl(e, f), Tp(e, g), Cl(e, g))}
StepFn(e, G) == [f \in G |-> [d \in 0..3 |-> Steps(e, G, f, d)]]
All(n) == n[0] \cup n[1] \cup n[2] \cup n[3]
\* ground all around, without too much between its lowest and highest
Sound(e, nb, f) ==
  /\ \A d \in 0..3 : nb[f][d] # {}
  /\ \A g, k \in All(nb[f]) : Size(Tp(e, g) - Tp(e, k)) <= e.c
\* the same for all cells of a square
RECURSIVE Shrink(_, _, _)
Shrink(nb, S, n) ==
  IF n = 0 THEN S
  ELSE Shrink(nb, {f \in S : \A d \in 0..3 :
                    \E g \in nb[f][d] : g \in S /\ (\E k \in nb[g][(d + 1) % 4] : k \in S)}, n - 1)
\* cells within n straight steps of an obstacle are left out
RECURSIVE Erode(_, _, _)
Erode(nb, S, n) ==
  IF n = 0 THEN S
  ELSE Erode(nb, {f \in S : \A d \in 0..3 : nb[f][d] \cap S # {}}, n - 1)
RECURSIVE Reach(_, _, _, _)
Reach(nb, S, seen, front) ==
  IF front = {} THEN seen
  ELSE LET new == (UNION {All(nb[f]) : f \in front} \cap S) \ seen IN Reach(nb, S, seen \cup new, new)

\* the connected parts of S with one of these floors (steps go both ways)
RECURSIVE Parts(_, _, _)
Parts(nb, S, from) ==
  IF from = {} THEN {}
  ELSE LET f == CHOOSE f \in from : TRUE
           R == Reach(nb, S, {f}, {f})
       IN {R} \cup Parts(nb, S, from \ R)

\* where agents certainly can stand, and where they may be able to
Must(e, nb, G) == Shrink(nb, {f \in G : Sound(e, nb, f)}, e.r + 1)
May(e, nb, G) == Erode(nb, G, e.r)
================================================================================
