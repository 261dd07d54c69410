------------------------------- MODULE Column --------------------------------
(* Design of a column of the heightfield (C23): spans are inserted one after *)
(* another, spans that overlap or touch are merged.  TLC checks that after   *)
(* every sequence of insertions the column holds exactly the inserted voxels *)
(* as ordered, separate spans, and what areas merged spans can have.         *)
EXTENDS ColumnOps, FiniteSets, TLC

CONSTANTS Height,  \* rows
          Areas,   \* area ids, 0 is not walkable
          Thr,     \* merge threshold
          MaxOps

VARIABLES col,   \* sequence of <<lo, hi, area>>, covering rows lo..hi-1
          adds,  \* set of everything inserted
          hist
vars == <<col, adds, hist>>
view == <<col, adds>>

Init == col = <<>> /\ adds = {} /\ hist = <<>>
Add(lo, hi, a) ==
  /\ col' = Insert(col, <<lo, hi, a>>, Thr)
  /\ adds' = adds \cup {<<lo, hi, a>>}
  /\ hist' = Append(hist, <<lo, hi, a>>)
Next == Len(hist) < MaxOps /\ \E lo \in 0..(Height - 1) : \E hi \in (lo + 1)..Height : \E a \in Areas : Add(lo, hi, a)
Spec == Init /\ [][Next]_vars

Rows(x) == x[1]..(x[2] - 1)
Solid == UNION {Rows(col[i]) : i \in 1..Len(col)}
Exact == Solid = UNION {Rows(x) : x \in adds}
Ordered == \A i \in 1..Len(col) : col[i][1] < col[i][2] /\ (i > 1 => col[i - 1][2] < col[i][1])
\* the surfaces that became part of span c
In(c) == {x \in adds : c[1] <= x[1] /\ x[2] <= c[2]}
\* the area is that of a surface close below the top, or of one close below such a one, ...
RECURSIVE Near(_, _)
Near(c, t) == LET N == {x \in In(c) : x[2] <= t /\ x[2] + Thr >= t} IN
  {x[3] : x \in N} \cup UNION {Near(c, x[2]) : x \in {x \in N : x[2] < t}}
TopArea == \A i \in 1..Len(col) : LET c == col[i] IN
  /\ c[3] \in Near(c, c[2])
  /\ \A x \in In(c) : x[2] = c[2] => c[3] >= x[3]

Edges == PrintT("EDGE " \o ToString(hist'))
==============================================================================
