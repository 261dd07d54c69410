-------------------------------- MODULE Regions --------------------------------
(* Partitioning walkable space into regions (C28): the monotone sweep and the *)
(* merging of regions, for a single level of W x H cells.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ------------------------------------------------- operators on graphs of spans
\* nb is a function from spans to sets of spans
RECURSIVE FloodFrom(_, _, _)
FloodFrom(nb, front, seen) ==
  IF front = {} THEN seen
  ELSE LET new == (UNION {nb[u] : u \in front}) \ seen IN FloodFrom(nb, new, seen \cup new)
Component(nb, u) == FloodFrom(nb, {u}, {u})
Connected(nb, M) == M = {} \/ LET u == CHOOSE u \in M : TRUE
                                  nbM == [v \in M |-> nb[v] \cap M]
                              IN Component(nbM, u) = M
RECURSIVE Components(_, _)
Components(nb, S) == IF S = {} THEN {} ELSE LET c == Component(nb, CHOOSE u \in S : TRUE) IN {c} \cup Components(nb, S \ c)

\* contact of region A with region B: edges <<u, d>>, con(u, d) is the span there.
Contact(con(_, _), A, B) == {x \in A \X (0..3) : con(x[1], x[2]) \in B}
\* the edge that follows along the outline of A, walking with A at the same side
After(con(_, _), A, x) ==
  LET u == x[1]  d == x[2]  c == (d + 1) % 4  v == con(u, c) IN
  IF v \notin A THEN <<u, c>>
  ELSE LET t == con(v, d) IN IF t \notin A THEN <<v, d>> ELSE <<t, (d + 3) % 4>>
\* number of stretches of the outline of A along B
Stretches(con(_, _), A, B) ==
  LET E == Contact(con, A, B) IN Cardinality({x \in E : After(con, A, x) \notin E})

\* -------------------------------------------------------------------- the model
CONSTANTS W, H, Areas, MinSize, MergeSize
VARIABLES area, reg, row, nid, ph
vars == <<area, reg, row, nid, ph>>
Cells == 0..(W * H - 1)
Nb(c, d) == LET x == c % W  y == c \div W IN
  CASE d = 0 -> IF x > 0 THEN c - 1 ELSE -1
    [] d = 1 -> IF y < H - 1 THEN c + W ELSE -1
    [] d = 2 -> IF x < W - 1 THEN c + 1 ELSE -1
    [] d = 3 -> IF y > 0 THEN c - W ELSE -1
\* spans are connected where both are walkable
Con(c, d) == LET n == Nb(c, d) IN IF n = -1 THEN -1 ELSE IF area[n] = 0 \/ area[c] = 0 THEN -1 ELSE n
NbSet == [c \in Cells |-> {Con(c, d) : d \in 0..3} \ {-1}]

Init == area \in [Cells -> Areas] /\ reg = [c \in Cells |-> 0] /\ row = 0 /\ nid = 1 /\ ph = "sweep"

\* runs of one area in the current row, as sets of cells
RowCells == {row * W + x : x \in 0..(W - 1)}
Runs == LET S == {c \in RowCells : area[c] # 0}
            nbr == [c \in S |-> {n \in NbSet[c] \cap S : area[n] = area[c]}]
        IN Components(nbr, S)
Below(c) == LET n == Con(c, 3) IN IF n # -1 /\ area[n] = area[c] THEN reg[n] ELSE 0
MinCell(q) == CHOOSE c \in q : \A b \in q : c <= b
SweepRow ==
  /\ ph = "sweep"
  /\ LET R == Runs
         B(q) == {Below(c) : c \in q} \ {0}
         \* the run takes the region below if it is its only one and no other run touches that
         Joins(q) == Cardinality(B(q)) = 1 /\ \A p \in R \ {q} : B(p) \cap B(q) = {}
         Fresh == {q \in R : ~Joins(q)}
         Nr(q) == nid + Cardinality({p \in Fresh : MinCell(p) < MinCell(q)})
         Id(q) == IF Joins(q) THEN CHOOSE b \in B(q) : TRUE ELSE Nr(q)
     IN /\ reg' = [c \in Cells |-> IF \E q \in R : c \in q THEN Id(CHOOSE q \in R : c \in q) ELSE reg[c]]
        /\ nid' = nid + Cardinality(Fresh)
  /\ IF row = H - 1 THEN ph' = "filter" /\ row' = 0 ELSE row' = row + 1 /\ ph' = ph
  /\ area' = area

Members(r) == {c \in Cells : reg[c] = r}
\* parts of the walkable space that are too small are dropped
Filter ==
  /\ ph = "filter" /\ ph' = "merge"
  /\ LET P == Components(NbSet, {c \in Cells : area[c] # 0})
         Gone == UNION {p \in P : Cardinality(p) < MinSize}
     IN reg' = [c \in Cells |-> IF c \in Gone THEN 0 ELSE reg[c]]
  /\ UNCHANGED <<area, row, nid>>
CanMerge(a, b) ==
  LET A == Members(a)  B == Members(b) IN
  /\ a # b /\ A # {} /\ B # {}
  /\ area[CHOOSE c \in A : TRUE] = area[CHOOSE c \in B : TRUE]
  /\ Stretches(Con, A, B) = 1 /\ Stretches(Con, B, A) = 1
Regs == {reg[c] : c \in Cells} \ {0}
Merge == /\ ph = "merge"
         /\ \E a \in Regs : \E b \in Regs :
              /\ Cardinality(Members(a)) <= MergeSize
              /\ CanMerge(a, b)
              /\ reg' = [c \in Cells |-> IF reg[c] = a THEN b ELSE reg[c]]
         /\ UNCHANGED <<area, row, nid, ph>>
Next == SweepRow \/ Filter \/ Merge
Spec == Init /\ [][Next]_vars

\* every region is connected, of one area, and has no holes (Euler characteristic 1)
Euler(M) == Cardinality(M)
  - Cardinality({x \in M \X {1, 2} : Con(x[1], x[2]) \in M})
  + Cardinality({c \in M : Con(c, 1) \in M /\ Con(c, 2) \in M /\ Con(Con(c, 1), 2) \in M})
Good == \A r \in Regs : LET M == Members(r) IN
  /\ \A c \in M : \A b \in M : area[c] = area[b]
  /\ Connected(NbSet, M)
  /\ Euler(M) = 1
\* nothing walkable is lost but small parts
Covered == ph = "merge" => \A c \in Cells :
  (reg[c] = 0) = (area[c] = 0 \/ Cardinality(Component(NbSet, c)) < MinSize)
Edges == (ph = "sweep" /\ row = 0) => PrintT("EDGE " \o ToString([y \in 1..H |-> [x \in 1..W |-> area[(y - 1) * W + x - 1]]]))

\* the fields only: nothing is explored any further
Fields == Edges /\ FALSE
================================================================================
