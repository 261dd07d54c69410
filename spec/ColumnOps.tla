------------------------------ MODULE ColumnOps ------------------------------
(* How a span is inserted into a column of a heightfield.  A span is         *)
(* <<lo, hi, area>> and covers the rows lo..hi-1.                            *)
EXTENDS Naturals, Integers, Sequences

\* the merging rule: area of the merge of a new span with one that is there
MergeArea(n, c, thr) ==
  LET d == IF n[2] > c[2] THEN n[2] - c[2] ELSE c[2] - n[2] IN
  IF d <= thr THEN (IF c[3] > n[3] THEN c[3] ELSE n[3])
  ELSE IF n[2] < c[2] THEN c[3] ELSE n[3]
Merge(n, c, thr) ==
  <<IF c[1] < n[1] THEN c[1] ELSE n[1], IF c[2] > n[2] THEN c[2] ELSE n[2], MergeArea(n, c, thr)>>

\* insertion of a span n into a column, from the lowest span upwards
RECURSIVE Insert(_, _, _)
Insert(q, n, thr) ==
  IF q = <<>> THEN <<n>>
  ELSE IF Head(q)[1] > n[2] THEN <<n>> \o q
  ELSE IF Head(q)[2] < n[1] THEN <<Head(q)>> \o Insert(Tail(q), n, thr)
  ELSE Insert(Tail(q), Merge(n, Head(q), thr), thr)
==============================================================================
