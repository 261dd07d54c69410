------------------------------- MODULE Partition -------------------------------
(* What a partitioning of a compact heightfield into regions must be (C28).  *)
(* A field is [w, h, cells]: per cell the spans <<floor, clearance, area,     *)
(* c0, c1, c2, c3>> (63: not connected); reg gives a number per span.        *)
EXTENDS FieldOps
R == INSTANCE Regions WITH W <- 1, H <- 1, Areas <- {}, MinSize <- 0, MergeSize <- 0, area <- 0, reg <- 0, row <- 0, nid <- 0, ph <- ""

BorderBit == 32768
PSpans(f) == UNION {{<<i, k>> : k \in DOMAIN f.cells[i]} : i \in DOMAIN f.cells}
PCon(f, u, d) == LET x == f.cells[u[1]][u[2]][4 + d] IN IF x = 63 THEN None ELSE <<Nbr(u[1], d, f.w, f.h), x + 1>>
PArea(f, u) == f.cells[u[1]][u[2]][3]
InBorder(f, b, i) == LET x == (i - 1) % f.w  y == (i - 1) \div f.w IN b > 0 /\ (x < b \/ y < b \/ x >= f.w - b \/ y >= f.h - b)
================================================================================
