-------------------------------- MODULE Paths --------------------------------
(* Corridors on a navigation mesh (C11-C15, C19).                            *)
(*                                                                           *)
(* A graph G is                                                              *)
(*   [n:   polygon id -> [f: flags, w: weight, a: area, k: tile],            *)
(*    out: polygon id -> set of polygons it is connected to,                 *)
(*    e:   sequence of connections <<a, b, x0,y0,z0, x1,y1,z1, b0, b1>> with *)
(*         the edge from a to b and the part of it (in 255ths) that is open] *)
(* Positions are in 1/128 of a cell.                                         *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise

Permits(f, inc, exc) == (f & inc) # 0 /\ (f & exc) = 0

\* polygons permitted by a filter
Allowed(G, inc, exc) == {x \in DOMAIN G.n : Permits(G.n[x].f, inc, exc)}

\* everything that can be reached from the polygons of F
RECURSIVE Reach(_, _, _, _)
Reach(G, A, F, R) ==
  IF F = {} THEN R
  ELSE LET N == ((UNION {G.out[x] : x \in F}) \cap A) \ R IN Reach(G, A, N, R \cup N)

\* a sequence of polygons that moves along connections E (pairs)
Connected(path, E(_, _)) == \A i \in 1..(Len(path) - 1) : E(path[i], path[i + 1])

Mid(e) ==
  LET s == e[9] + e[10]
      m(i) == e[i] + (((e[i + 3] - e[i]) * s) \div 510)
  IN <<m(3), m(4), m(5)>>

PSqr(a) == a * a
PDist2(p, q) == PSqr(p[1] - q[1]) + PSqr(p[2] - q[2]) + PSqr(p[3] - q[3])

\* integer square root
PSqrt(v) ==
  LET RECURSIVE B(_, _)
      B(lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2 IN IF m * m <= v THEN B(m, hi) ELSE B(lo, m)
  IN B(0, 46341)
PDist(p, q) == PSqrt(PDist2(p, q))

\* distances to the goal position from where x can be entered coming from R
EntryDists(G, R, start, sp, ep, x) ==
  {PDist(Mid(G.e[i]), ep) : i \in {i \in 1..Len(G.e) : G.e[i][2] = x /\ G.e[i][1] \in R}}
  \cup (IF x = start THEN {PDist(sp, ep)} ELSE {})

SMin(S) == CHOOSE a \in S : \A b \in S : a <= b
SMax(S) == CHOOSE a \in S : \A b \in S : a >= b

\* x is nearest to the goal among R, as far as entry positions can tell
NearestEnd(G, R, start, sp, ep, x) ==
  LET D == EntryDists(G, R, start, sp, ep, x) IN
  D # {} /\ \A y \in R : LET C == EntryDists(G, R, start, sp, ep, y) IN C = {} \/ SMin(D) <= SMax(C) + 4

\* what leaving x for y costs; the goal costs its weight
Factor(x, y) == 1 + ((31 * x + 17 * y + ((x * y) % 7)) % 5)
StepCost(G, pair, x, y) == G.n[x].w * (IF pair THEN Factor(x, y) ELSE 1)

\* d (pairs <<polygon, number>>) is a lower bound for the cost of every
\* permitted corridor from start, without its last polygon: potentials that
\* no connection undercuts
LowerBound(G, A, start, d, pair) ==
  LET D == {d[i][1] : i \in 1..Len(d)}
      f == [x \in D |-> (CHOOSE p \in {d[i] : i \in 1..Len(d)} : p[1] = x)[2]]
  IN start \in D /\ f[start] <= 0
     /\ \A x \in D : \A y \in G.out[x] \cap A : y \in D /\ f[y] <= f[x] + StepCost(G, pair, x, y)

RECURSIVE PathCost(_, _, _)
PathCost(G, pair, path) ==
  IF Len(path) <= 1 THEN 0 ELSE StepCost(G, pair, path[1], path[2]) + PathCost(G, pair, Tail(path))
=============================================================================
