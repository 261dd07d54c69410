-------------------------------- MODULE Walk --------------------------------
(* Straight lines on a navigation mesh: taut lines through corridors (C16,   *)
(* C17) and rays (C18).                                                      *)
(*                                                                           *)
(* The graph is that of Paths.tla, with the corners v of every polygon and   *)
(* the number of the edge (from 1) as last field of a connection.            *)
(* Positions <<x, y, z>> are in 1/128 of a cell; results are rounded, so     *)
(* that every relation is judged up to a distance of Tol.                    *)
EXTENDS Integers, Sequences, FiniteSets, Paths

Tol == 2

WAbs(a) == IF a < 0 THEN -a ELSE a
WMin(a, b) == IF a < b THEN a ELSE b
WMax(a, b) == IF a > b THEN a ELSE b

\* > 0 when p is to the right of the line from a to b (seen from above, z up)
Cross(a, b, p) == ((b[3] - a[3]) * (p[1] - a[1])) - ((b[1] - a[1]) * (p[3] - a[3]))
Dot(a, b, c) == ((b[1] - a[1]) * (c[1] - a[1])) + ((b[3] - a[3]) * (c[3] - a[3]))
Len1(a, b) == WAbs(b[1] - a[1]) + WAbs(b[3] - a[3])
Near(a, b) == WAbs(a[1] - b[1]) <= Tol /\ WAbs(a[3] - b[3]) <= Tol
Near3(a, b) == Near(a, b) /\ WAbs(a[2] - b[2]) <= Tol
Side(a, b, p) == LET c == Cross(a, b, p) t == Tol * Len1(a, b) IN IF c > t THEN 1 ELSE IF c < -t THEN -1 ELSE 0

\* p is on the segment from a to b
On(p, a, b) ==
  \/ Near(p, a) \/ Near(p, b)
  \/ /\ Side(a, b, p) = 0
     /\ Dot(a, b, p) >= 0 /\ Dot(b, a, p) >= 0

\* height of a point on a segment
OnHeight(p, a, b) ==
  LET d == IF WAbs(b[1] - a[1]) >= WAbs(b[3] - a[3]) THEN 1 ELSE 3 IN
  IF a[d] = b[d] THEN WMin(a[2], b[2]) - Tol <= p[2] /\ p[2] <= WMax(a[2], b[2]) + Tol
  ELSE WAbs(((p[2] - a[2]) * (b[d] - a[d])) - ((b[2] - a[2]) * (p[d] - a[d])))
         <= (Tol + 1) * (WAbs(b[d] - a[d]) + WAbs(b[2] - a[2]))

\* the open part of a connection: <<left end, right end>>
Portal(c) ==
  LET at(b) == [i \in 1..3 |-> c[2 + i] + (((c[5 + i] - c[2 + i]) * b) \div 255)] IN <<at(c[9]), at(c[10])>>

Links(G, a, b) == {G.e[i] : i \in {i \in 1..Len(G.e) : G.e[i][1] = a /\ G.e[i][2] = b}}
Portals(G, a, b) == {Portal(c) : c \in Links(G, a, b)}

VNext(v, i) == IF i = Len(v) THEN 1 ELSE i + 1

\* p is in the convex polygon with corners v (two corners: a connection)
In(p, v) ==
  IF Len(v) = 2 THEN On(p, v[1], v[2])
  ELSE \/ \A i \in 1..Len(v) : Side(v[i], v[VNext(v, i)], p) # -1
       \/ \E i \in 1..Len(v) : On(p, v[i], v[VNext(v, i)])
StrictlyIn(p, v) == Len(v) > 2 /\ \A i \in 1..Len(v) : Side(v[i], v[VNext(v, i)], p) = 1

\* q is the point of the polygon nearest to p, seen from above
Clamped(p, q, v) ==
  /\ In(q, v)
  /\ \A i \in 1..Len(v) : Dot(q, p, v[i]) <= (Tol + 1) * (Len1(q, p) + Len1(q, v[i]) + 1)
  /\ IF StrictlyIn(p, v) THEN q[2] = p[2]
     ELSE \/ q[2] = p[2] /\ Near(p, q)
          \/ \E i \in 1..Len(v) : On(q, v[i], v[VNext(v, i)]) /\ OnHeight(q, v[i], v[VNext(v, i)])

\* ------------------------------------------------------------- straight path
\* As above up to a distance t: ends of partial portals are known to 1/255 of
\* the edge only.
NearT(a, b, t) == WAbs(a[1] - b[1]) <= t /\ WAbs(a[3] - b[3]) <= t
Near3T(a, b, t) == NearT(a, b, t) /\ WAbs(a[2] - b[2]) <= t
SideT(a, b, p, t) == LET c == Cross(a, b, p) d == t * Len1(a, b) IN IF c > d THEN 1 ELSE IF c < -d THEN -1 ELSE 0

Partial(c) == c[9] # 0 \/ c[10] # 255
Slack(G, path, n) ==
  LET C == {c \in UNION {Links(G, path[i], path[i + 1]) : i \in 1..(n - 1)} : Partial(c)}
      L(c) == WMax(WAbs(c[6] - c[3]), WAbs(c[8] - c[5]))
  IN IF C = {} THEN Tol ELSE Tol + 1 + (SMax({L(c) : c \in C}) \div 170)

\* the line from a to b passes through the portal <<l, r>>
Through(a, b, P, t) ==
  IF P[1] = P[2] THEN NearT(P[1], a, t) \/ NearT(P[1], b, t)
  ELSE \/ \E i \in 1..2 : NearT(P[i], a, t) \/ NearT(P[i], b, t)
       \/ On(a, P[1], P[2]) /\ On(b, P[1], P[2])
       \/ /\ SideT(a, b, P[1], t) # 1 /\ SideT(a, b, P[2], t) # -1
          /\ SideT(P[1], P[2], a, t) # -1 /\ SideT(P[1], P[2], b, t) # 1
          /\ (NearT(a, b, t) => On(a, P[1], P[2]))

\* the portal lies on the line from a to b
Along(a, b, P, t) == ~NearT(a, b, t) /\ SideT(a, b, P[1], t) = 0 /\ SideT(a, b, P[2], t) = 0

\* the way from a over b to c clearly bends to the right (1) or left (-1)
Bends(a, b, c, d, t) == SideT(a, b, c, t) = d /\ SideT(b, c, a, t) = d /\ SideT(a, c, b, t) = -d

\* w is strictly between the directions u and v as seen from b
Between(b, u, v, w) ==
  LET k == Cross(b, u, v) IN
  \/ k > 0 /\ Cross(b, u, w) > 0 /\ Cross(b, w, v) > 0
  \/ k < 0 /\ Cross(b, u, w) < 0 /\ Cross(b, w, v) < 0

\* Where the way from a over b to c bends cannot be decided: an end of a
\* partial portal cannot be told from one of the points, a portal at b lies on
\* the way, b is the end of an off-mesh connection, or the corridor winds
\* around b completely.
Murky(G, path, n, a, b, c, t) ==
  LET X == UNION {Portals(G, path[i], path[i + 1]) : i \in 1..(n - 1)}
      Ends == {P[1] : P \in X} \cup {P[2] : P \in X}
      At == {P \in X : \E k \in 1..2 : NearT(P[k], b, t)}
      far(P) == IF NearT(P[1], b, t) THEN P[2] ELSE P[1]
      RECURSIVE Fan(_)
      Fan(i) == IF i = n THEN <<c>>
                ELSE LET Y == At \cap Portals(G, path[i], path[i + 1]) IN
                     (IF Y = {} THEN <<>> ELSE <<far(CHOOSE P \in Y : TRUE)>>) \o Fan(i + 1)
      D == <<a>> \o Fan(1)
  IN
  \/ \E q \in Ends : \E p \in {a, b, c} : NearT(q, p, t) /\ <<q[1], q[3]>> # <<p[1], p[3]>>
  \/ \E P \in At : P[1] = P[2] \/ Along(a, b, P, t) \/ Along(b, c, P, t)
  \/ \E k \in 1..(Len(D) - 1) : \E w \in {a, c} : Between(b, D[k], D[k + 1], w)

\* b is an end point of the portal, and the way from a over b to c turns
\* around it
Turns(a, b, c, P, t, murky) ==
  IF P[1] = P[2] THEN Near3(b, P[1])
  ELSE /\ Near3(b, P[1]) \/ Near3(b, P[2])
       /\ \/ murky
          \/ Near3(b, P[1]) /\ ~Bends(a, b, c, 1, t)
          \/ Near3(b, P[2]) /\ ~Bends(a, b, c, -1, t)

\* ---------------------------------------------------------------------- rays
\* connections on the ground from x to polygons of A
Ground(G, A, x) ==
  {G.e[i] : i \in {i \in 1..Len(G.e) : G.e[i][1] = x /\ G.e[i][2] \in A /\ ~G.n[G.e[i][2]].off}}

\* how far from its true place an end of the open part of c may be
Blur(c) == IF Partial(c) THEN Tol + 1 + (WMax(WAbs(c[6] - c[3]), WAbs(c[8] - c[5])) \div 250) ELSE Tol

\* the line from a through b passes the open part of c
Passes(a, b, c) == LET P == Portal(c) IN SideT(a, b, P[1], Blur(c)) # 1 /\ SideT(a, b, P[2], Blur(c)) # -1

OnT(p, a, b, t) ==
  \/ NearT(p, a, t) \/ NearT(p, b, t)
  \/ SideT(a, b, p, t) = 0 /\ Dot(a, b, p) >= 0 /\ Dot(b, a, p) >= 0

\* p is an inner point of edge k of x, or an end of it, where the connections
\* L let a ray pass
Covered(L, k, p) ==
  LET M == {c \in L : c[11] = k}
      In1(c) == OnT(p, Portal(c)[1], Portal(c)[2], Blur(c))
      left(c) == NearT(p, Portal(c)[1], 2 * Blur(c))
      right(c) == NearT(p, Portal(c)[2], 2 * Blur(c))
  IN \E c \in M :
       /\ In1(c)
       /\ ~left(c) \/ c[9] = 0 \/ \E d \in M : right(d) /\ d[10] = c[9]
       /\ ~right(c) \/ c[10] = 255 \/ \E d \in M : left(d) /\ d[9] = c[10]

\* Polygons that touch p and are connected with x through openings at p
RECURSIVE Touching(_, _, _, _, _)
Touching(G, A, p, F, R) ==
  IF F = {} THEN R
  ELSE LET N == {c[2] : c \in {c \in UNION {Ground(G, A, x) : x \in F} : OnT(p, Portal(c)[1], Portal(c)[2], Blur(c))}} \ R
       IN Touching(G, A, p, N, R \cup N)

\* p is at a corner of polygon x or at the end of an opening of its edges:
\* whether a ray there touches the next polygon depends on rounding
Corner(G, A, x, p) ==
  \/ \E k \in 1..Len(G.n[x].v) : Near(p, G.n[x].v[k])
  \/ \E c \in Ground(G, A, x) : \E k \in 1..2 : NearT(p, Portal(c)[k], Blur(c))

\* a ray in polygon x may be stopped at p
Stops(G, A, x, p) ==
  \E y \in Touching(G, A, p, {x}, {x}) :
    LET v == G.n[y].v L == Ground(G, A, y) IN
    \E k \in 1..Len(v) : On(p, v[k], v[VNext(v, k)]) /\ ~Covered(L, k, p)
=============================================================================
