-------------------------------- MODULE Slopes --------------------------------
(* All small triangles, vertex by vertex.                                     *)
EXTENDS Slope, TLC
CONSTANT R
VARIABLE tri
Points == (-R..R) \X (-R..R) \X (-R..R)
Init == tri = <<<<0, 0, 0>>>>
Next == Len(tri) < 3 /\ \E p \in Points : tri' = Append(tri, p)
Spec == Init /\ [][Next]_tri
Full == Len(tri) = 3
A == tri[1]
B == tri[2]
C == tri[3]
K == DOMAIN Angles
\* never both, and both only undecided right at the angle
OneOf == Full => \A k \in K : ~(Below(A, B, C, k) /\ NotBelow(A, B, C, k))
\* it does not matter which vertex comes first
Turned == Full => \A k \in K : Below(A, B, C, k) = Below(B, C, A, k) /\ NotBelow(A, B, C, k) = NotBelow(C, A, B, k)
\* the lower side of a walkable triangle is not walkable
Flipped == Full /\ ~Flat(A, B, C) => \A k \in K : Below(A, B, C, k) => NotBelow(A, C, B, k)
\* nor does the direction it slopes to
Quarter(p) == <<p[3], p[2], -p[1]>>
AllRound == Full => \A k \in K : Below(A, B, C, k) = Below(Quarter(A), Quarter(B), Quarter(C), k)
\* greater angles allow more
More == Full => \A k \in K : k > 1 /\ Below(A, B, C, k - 1) => Below(A, B, C, k)
Level == Full /\ A[2] = B[2] /\ B[2] = C[2] /\ Normal(A, B, C)[2] > 0 => \A k \in K : k > 1 => Below(A, B, C, k)
Replay == Full => PrintT("EDGE " \o ToString(tri))
===============================================================================
