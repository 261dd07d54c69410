-------------------------------- MODULE Pairs ---------------------------------
(* Design of the compact heightfield and the filters (C24, C25): all pairs   *)
(* of neighbouring columns.  TLC checks that the connections of open spaces  *)
(* are symmetric and unambiguous, and what filters do to areas.              *)
EXTENDS FieldOps, TLC

CONSTANTS Rows_, Spans, Height, Climb

VARIABLES cols, done
vars == <<cols, done>>

Span == {<<lo, hi, a>> : lo \in 0..(Rows_ - 1), hi \in 1..Rows_, a \in {0, 63}}
RECURSIVE Columns(_)
Columns(n) ==
  IF n = 0 THEN {<<>>}
  ELSE LET C == Columns(n - 1) IN
       C \cup {Append(c, s) : c \in C, s \in {s \in Span : s[1] < s[2]}}
Ok(c) == \A j \in 1..Len(c) : c[j][1] < c[j][2] /\ (j > 1 => c[j - 1][2] < c[j][1])
Good == {c \in Columns(Spans) : Ok(c)}

Init == cols \in {<<a, b>> : a \in Good, b \in Good} /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ cols' = cols
Spec == Init /\ [][Next]_vars

V(i) == Visible(cols[i])
Symmetric == \A i \in 1..2 : \A k \in DOMAIN V(i) :
  LET F == Connects(V(i)[k], V(3 - i), Height, Climb) IN
  /\ Cardinality(F) <= 1
  /\ \A f \in F : k \in Connects(V(3 - i)[f], V(i), Height, Climb)
Walk(c) == {<<i, j>> \in {1, 2} \X (1..Spans) : j <= Len(c[i]) /\ c[i][j][3] # 0}
Same(c) == \A i \in 1..2 : Len(c[i]) = Len(cols[i]) /\ \A j \in DOMAIN c[i] : c[i][j][1] = cols[i][j][1] /\ c[i][j][2] = cols[i][j][2]
Filters ==
  /\ Same(Low(cols, Climb)) /\ Walk(cols) \subseteq Walk(Low(cols, Climb))
  /\ Same(LowCeiling(cols, Height)) /\ Walk(LowCeiling(cols, Height)) \subseteq Walk(cols)
  /\ LowCeiling(LowCeiling(cols, Height), Height) = LowCeiling(cols, Height)
  \* in a field of these two columns all spans are next to the border
  /\ Walk(Ledges(cols, 2, 1, Height, Climb)) = {}
  \* after the last filter two connected spaces are never closed in
  /\ LET L == LowCeiling(cols, Height) IN \A i \in 1..2 : \A k \in DOMAIN Visible(L[i]) : Visible(L[i])[k][2] > Height

Edges == PrintT("EDGE " \o ToString(cols))
==============================================================================
