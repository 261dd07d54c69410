-------------------------------- MODULE Sweep ---------------------------------
(* Design of erosion (C26): distances to the border of the walkable space    *)
(* are found by two sweeps over the field.  TLC checks for every shape of    *)
(* the walkable space of a small field that this gives the distances.        *)
EXTENDS Naturals, Integers, FiniteSets, Sequences, TLC

CONSTANTS W, H, Holes  \* at most so many cells are not walkable

VARIABLES walk, dist, pos, pass
vars == <<walk, dist, pos, pass>>

Cells == (0..(W - 1)) \X (0..(H - 1))
Inf == 1000
Mn(S) == CHOOSE x \in S : \A y \in S : x <= y
Off(d) == CASE d = 0 -> <<-1, 0>> [] d = 1 -> <<0, 1>> [] d = 2 -> <<1, 0>> [] d = 3 -> <<0, -1>>
To(c, d) == <<c[1] + Off(d)[1], c[2] + Off(d)[2]>>
Border(c) == c \notin walk \/ \E d \in 0..3 : To(c, d) \notin walk

Init ==
  /\ walk \in {Cells \ {x[i] : i \in 1..Holes} : x \in [1..Holes -> Cells \cup {<<-1, -1>>}]}
  /\ dist = [c \in Cells |-> IF c \notin walk \/ \E d \in 0..3 : To(c, d) \notin walk THEN 0 ELSE Inf]
  /\ pos = 0 /\ pass = 1

\* the sweep looks at one straight neighbour d and the diagonal one reached from there by t
Look(c, d, t) ==
  LET a == To(c, d)  b == To(a, t) IN
  IF a \notin walk THEN {}
  ELSE {dist[a] + 2} \cup (IF b \in walk THEN {dist[b] + 3} ELSE {})
Sweep ==
  /\ pass \in {1, 2}
  /\ LET n == IF pass = 1 THEN pos ELSE W * H - 1 - pos
         c == <<n % W, n \div W>>
         L == IF pass = 1 THEN Look(c, 0, 3) \cup Look(c, 3, 2) ELSE Look(c, 2, 1) \cup Look(c, 1, 0)
     IN dist' = IF c \in walk THEN [dist EXCEPT ![c] = Mn({dist[c]} \cup L)] ELSE dist
  /\ IF pos = W * H - 1 THEN pos' = 0 /\ pass' = pass + 1 ELSE pos' = pos + 1 /\ pass' = pass
  /\ walk' = walk
Next == Sweep
Spec == Init /\ [][Next]_vars

\* the distance of every walkable cell: the cheapest way to a border
Nb(c) == {c2 \in walk : c2 # c /\ c2[1] - c[1] \in {-1, 0, 1} /\ c2[2] - c[2] \in {-1, 0, 1}}
Cost(a, b) == IF a[1] = b[1] \/ a[2] = b[2] THEN 2 ELSE 3
\* dist is a distance: nothing can be improved and everything is reached
Right == pass = 3 =>
  \A c \in walk : IF Border(c) THEN dist[c] = 0
                  ELSE dist[c] = Mn({dist[b] + Cost(c, b) : b \in Nb(c)})

Edges == pass = 1 /\ pos = 0 => PrintT("EDGE " \o ToString([y \in 1..H |-> [x \in 1..W |-> IF <<x - 1, y - 1>> \in walk THEN 1 ELSE 0]]))
==============================================================================
