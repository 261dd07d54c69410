----------------------------- MODULE PathSearch ------------------------------
(* The search behind FindPath and the sliced search (C11-C14), on every      *)
(* directed graph of a few polygons: best-first search with a lower bound    *)
(* of the remaining cost, re-opening of closed nodes, a bounded node pool    *)
(* and any order of ties and connections.                                    *)
(*                                                                           *)
(* Costs depend on the polygon only: the cost of a corridor is the sum of    *)
(* the weights of its polygons; cost[x] is that of getting to x, without x   *)
(* itself.  h is a lower bound of what remains (h[x] is 0 or w[x]) - not only *)
(* a consistent one, as entry positions are fixed by the first visit.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,        \* polygons; 1 is the start, N the goal
          Weights,  \* possible weights
          Bounded,  \* whether the pool may be too small
          Gen       \* emit the graphs instead of searching

VARIABLES edges, w, h, pool,     \* the problem
          cost, parent, open, closed, oon, done, best

vars == <<edges, w, h, pool, cost, parent, open, closed, oon, done, best>>
P == 1..N
Inf == 1000

Init ==
  /\ edges \in SUBSET ({e \in P \X P : e[1] # e[2] /\ e[2] # 1 /\ e[1] # N})
  /\ w \in [P -> Weights] /\ w[1] = 1 /\ w[N] = 1
  /\ h \in {[x \in P |-> IF x \in Z THEN w[x] ELSE 0] : Z \in SUBSET P} /\ h[1] = 0 /\ h[N] = 0
  /\ pool \in IF Bounded THEN 1..N ELSE {N}
  /\ cost = [x \in P |-> IF x = 1 THEN 0 ELSE Inf]
  /\ parent = [x \in P |-> 0]
  /\ open = {1} /\ closed = {} /\ oon = FALSE /\ done = FALSE
  /\ best = 1

\* the goal's own weight is added when it is reached
Step(x, y) == w[x] + (IF y = N THEN w[N] ELSE 0)
Total(x) == cost[x] + (IF x = N THEN 0 ELSE h[x])

Pop ==
  /\ ~done /\ open # {}
  /\ \E x \in open :
       /\ \A y \in open : Total(x) <= Total(y)
       /\ IF x = N
          THEN done' = TRUE /\ best' = N /\ UNCHANGED <<cost, parent, open, closed, oon>>
          ELSE LET S == {y \in P : <<x, y>> \in edges /\ y # parent[x]}
                   seen == open \cup closed
                   room == pool - Cardinality(seen)
                   new == S \ seen
               IN \E T \in SUBSET new :       \* the new ones that get a node
                    /\ IF Cardinality(new) <= room THEN T = new ELSE Cardinality(T) = room
                    /\ LET U == {y \in S : y \in T \/ (y \in seen /\ cost[x] + Step(x, y) < cost[y])} IN
                       /\ cost' = [y \in P |-> IF y \in U THEN cost[x] + Step(x, y) ELSE cost[y]]
                       /\ parent' = [y \in P |-> IF y \in U THEN x ELSE parent[y]]
                       /\ open' = (open \ {x}) \cup U
                       /\ closed' = (closed \cup {x}) \ U
                       /\ oon' = (oon \/ T # new)
                       /\ best' \in {best} \cup U    \* the nearest to the goal so far
                       /\ done' = FALSE
  /\ UNCHANGED <<edges, w, h, pool>>

Exhausted == ~done /\ open = {} /\ done' = TRUE /\ UNCHANGED <<edges, w, h, pool, cost, parent, open, closed, oon, best>>

Next == ~Gen /\ (Pop \/ Exhausted)
Spec == Init /\ [][Next]_vars

\* ---- what a search has to give
RECURSIVE ReachFrom(_)
ReachFrom(R) == LET M == R \cup {y \in P : \E x \in R : <<x, y>> \in edges} IN IF M = R THEN R ELSE ReachFrom(M)

\* cheapest cost of each polygon: Bellman-Ford
RECURSIVE Relax(_, _)
Relax(f, n) ==
  IF n = 0 THEN f
  ELSE Relax([y \in P |-> LET C == {f[y]} \cup {f[x] + Step(x, y) : x \in {x \in P : <<x, y>> \in edges}}
                          IN CHOOSE c \in C : \A k \in C : c <= k], n - 1)
Cheapest == Relax([x \in P |-> IF x = 1 THEN 0 ELSE Inf], N)

\* the tree of parents leads back to the start
RECURSIVE Back(_, _)
Back(x, n) == IF x = 1 THEN TRUE ELSE n > 0 /\ parent[x] # 0 /\ <<parent[x], x>> \in edges /\ Back(parent[x], n - 1)

Tree == \A x \in open \cup closed : Back(x, N)
Capacity == Cardinality(open \cup closed) <= pool
Complete == done /\ ~oon => (best = N <=> N \in ReachFrom({1}))
Optimal == done /\ ~oon /\ best = N => cost[N] = Cheapest[N]
Honest == done /\ best # N => (oon \/ N \notin ReachFrom({1}))

\* ---- graphs for the driver: weights and edges
RECURSIVE EdgeSeq(_)
EdgeSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : \A f \in S : e[1] * N + e[2] <= f[1] * N + f[2] IN <<e>> \o EdgeSeq(S \ {e})
Emit == Gen /\ (\A x \in P : h[x] = 0) /\ N \in ReachFrom({1}) =>
          PrintT("GRAPH " \o ToString(<<[x \in P |-> w[x]]>> \o EdgeSeq(edges)))
=============================================================================
