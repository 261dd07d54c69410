------------------------------ MODULE SliceLife ------------------------------
(* The life of a sliced path search on a query object while tiles come and   *)
(* go (C14, C15).  The search itself is abstract: an update may leave it in  *)
(* progress or decide it, and fails when the start or goal polygon is gone   *)
(* or may fail when another polygon it needs is gone.                        *)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxOps

VARIABLES ph,       \* none, progress, decided, failed
          start, goal, other,    \* "here", "gone", or "new" (back under another reference)
          changed,  \* the mesh changed during the search
          answers,  \* corridors returned by the search so far
          ops

vars == <<ph, start, goal, other, changed, answers, ops>>

Init == /\ ph = "none" /\ start = "here" /\ goal = "here" /\ other = "here"
        /\ changed = FALSE /\ answers = 0 /\ ops = <<>>

Do(op) == Len(ops) < MaxOps /\ ops' = Append(ops, op)
Mesh == UNCHANGED <<start, goal, other>>

InitOk == /\ Do("init") /\ ph' \in {"progress", "decided"} /\ answers' = 0 /\ changed' = FALSE
          \* a new search is about polygons that are present
          /\ start' = "here" /\ goal' = "here"
          /\ other' = IF "gone" \in {start, goal, other} THEN "gone" ELSE "here"
InitBad == Do("bad") /\ ph' = "failed" /\ answers' = 0 /\ changed' = FALSE /\ Mesh

Update(op) ==
  /\ Do(op) /\ Mesh /\ UNCHANGED <<changed, answers>>
  /\ IF ph # "progress" THEN ph' = ph
     ELSE IF start # "here" \/ goal # "here" THEN ph' = "failed"
     ELSE IF op = "zero" THEN ph' = ph
     ELSE ph' \in (IF op = "run" THEN {"decided"} ELSE {"progress", "decided"})
                  \cup (IF changed THEN {"failed"} ELSE {})

Other == Do("other") /\ Mesh /\ UNCHANGED <<ph, changed, answers>>
\* a whole search is only made when none is in progress
Find == Do("find") /\ ph \in {"none", "failed"} /\ ph' = ph /\ Mesh /\ UNCHANGED <<changed, answers>>

Finish(op) ==
  /\ Do(op) /\ Mesh /\ changed' = changed /\ ph' = "none"
  /\ IF ph \in {"none", "failed"} THEN answers' = answers
     ELSE answers' \in {answers + 1} \cup (IF changed THEN {answers} ELSE {})

Gone(op) ==
  /\ Do(op) /\ changed' = TRUE /\ UNCHANGED <<ph, answers>>
  /\ CASE op = "rmstart" -> start = "here" /\ start' = "gone" /\ UNCHANGED <<goal, other>>
       [] op = "rmgoal" -> goal = "here" /\ goal' = "gone" /\ UNCHANGED <<start, other>>
       [] OTHER -> other = "here" /\ other' = "gone" /\ UNCHANGED <<start, goal>>
Back(op) ==
  /\ Do(op) /\ changed' = TRUE /\ "gone" \in {start, goal, other} /\ UNCHANGED <<ph, answers>>
  /\ LET b(x) == IF x = "gone" THEN (IF op = "restore" THEN "here" ELSE "new") ELSE x IN
     start' = b(start) /\ goal' = b(goal) /\ other' = b(other)

Next == \/ InitOk \/ InitBad \/ \E op \in {"step", "run", "zero"} : Update(op)
        \/ Other \/ Find \/ Finish("fin") \/ Finish("part")
        \/ \E op \in {"rmstart", "rmgoal", "rmother"} : Gone(op)
        \/ \E op \in {"restore", "fresh"} : Back(op)
Spec == Init /\ [][Next]_vars
\* behaviours are told apart by what matters
View == <<ph, start, goal, other, changed, answers, Len(ops)>>

\* a search is answered at most once
Once == answers <= 1
\* after an update no search goes on without its start or goal
Last == ops[Len(ops)]
NoBlindSearch == ops # <<>> /\ Last \in {"step", "run", "zero"} /\ ph = "progress" => start = "here" /\ goal = "here"
Reset == ops # <<>> /\ Last \in {"fin", "part"} => ph = "none"

\* every transition once
Edges == PrintT("EDGE " \o ToString(ops'))
=============================================================================
