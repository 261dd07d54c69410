------------------------------- MODULE Geometry -------------------------------
(* Input geometry (C32, C33): what a mesh file means, and trees of chunks of *)
(* its triangles as they are stored and searched.                            *)
EXTENDS Integers, Sequences, FiniteSets

\* ---------------------------------------------------------------- mesh files
\* a line is [k |-> "v", c |-> <<x, y, z>>], [k |-> "f", i |-> indices from 1],
\* [k |-> "other"] or [k |-> "bad"]
VertsBefore(L, n) == Cardinality({i \in 1..n : L[i].k = "v"})
GoodLine(L, n) ==
  CASE L[n].k = "bad" -> FALSE
    [] L[n].k = "f" -> \A j \in DOMAIN L[n].i : L[n].i[j] \in 1..VertsBefore(L, n)
    [] OTHER -> TRUE
GoodFile(L) == \A n \in DOMAIN L : GoodLine(L, n)

RECURSIVE Verts(_, _), Triangles(_, _)
Verts(L, n) == IF n = 0 THEN <<>> ELSE IF L[n].k = "v" THEN Verts(L, n - 1) \o L[n].c ELSE Verts(L, n - 1)
Fan(f) == IF Len(f) < 3 THEN <<>>
          ELSE [j \in 1..(3 * (Len(f) - 2)) |-> LET t == (j - 1) \div 3 IN
                  CASE j % 3 = 1 -> f[1] - 1 [] j % 3 = 2 -> f[t + 2] - 1 [] OTHER -> f[t + 3] - 1]
Triangles(L, n) == IF n = 0 THEN <<>> ELSE IF L[n].k = "f" THEN Triangles(L, n - 1) \o Fan(L[n].i) ELSE Triangles(L, n - 1)

\* ------------------------------------------------------------ trees of chunks
\* boxes <<x0, z0, x1, z1>>; items are boxes
Lap(a, b) == a[1] <= b[3] /\ a[3] >= b[1] /\ a[2] <= b[4] /\ a[4] >= b[2]
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxOf(S) == CHOOSE a \in S : \A b \in S : a >= b
Hull(B) == <<MinOf({b[1] : b \in B}), MinOf({b[2] : b \in B}), MaxOf({b[3] : b \in B}), MaxOf({b[4] : b \in B})>>

\* a tree in depth-first order: leaves <<box, first, count>> with first >= 0,
\* inner nodes <<box, -size of the subtree, 0>>; items are already in order
RECURSIVE Tree(_, _, _, _)
Tree(items, lo, hi, limit) ==
  LET box == Hull({items[i] : i \in (lo + 1)..hi}) IN
  IF hi - lo <= limit THEN <<<<box, lo, hi - lo>>>>
  ELSE LET mid == lo + (hi - lo) \div 2
           T == Tree(items, lo, mid, limit) \o Tree(items, mid, hi, limit)
       IN <<<<box, -(Len(T) + 1), 0>>>> \o T

\* search: the leaves found (positions in the tree) for a rectangle
RECURSIVE Search(_, _, _)
Search(T, i, q) ==
  IF i > Len(T) THEN {}
  ELSE IF T[i][2] >= 0 THEN (IF Lap(T[i][1], q) THEN {i} ELSE {}) \cup Search(T, i + 1, q)
  ELSE Search(T, IF Lap(T[i][1], q) THEN i + 1 ELSE i - T[i][2], q)
===============================================================================
