------------------------------ MODULE ChunkTree -------------------------------
(* Design of the tree of chunks (C32): for every sequence of boxes the tree  *)
(* holds each box once and a search finds exactly the overlapping leaves.    *)
EXTENDS Geometry, TLC
CONSTANTS N, Limit, Size

VARIABLES items, q
Box == {<<a, b, c, d>> : a \in 0..Size, b \in 0..1, c \in 0..Size, d \in 0..1}
Boxes == {b \in Box : b[1] <= b[3] /\ b[2] <= b[4]}
Init == items \in UNION {[1..n -> Boxes] : n \in 1..N} /\ q = <<0, 0, 0, 0>>
Next == UNCHANGED items /\ q = <<0, 0, 0, 0>> /\ q' \in Boxes
Spec == Init /\ [][Next]_<<items, q>>

T == Tree(items, 0, Len(items), Limit)
Leaves == {i \in DOMAIN T : T[i][2] >= 0}
EachOnce == \A k \in 1..Len(items) : Cardinality({i \in Leaves : T[i][2] < k /\ k <= T[i][2] + T[i][3]}) = 1
Limits == \A i \in Leaves : T[i][3] \in 1..Limit
Room == Len(T) <= 4 * ((Len(items) + Limit - 1) \div Limit)
Found == Search(T, 1, q) = {i \in Leaves : Lap(T[i][1], q)}
Complete == \A k \in 1..Len(items) : Lap(items[k], q) => \E i \in Search(T, 1, q) : T[i][2] < k /\ k <= T[i][2] + T[i][3]
===============================================================================
