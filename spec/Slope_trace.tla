----------------------------- MODULE Slope_trace ------------------------------
(* C38: areas of triangles marked (op 1) or cleared (op 2) by their slope.     *)
EXTENDS TraceKit, Slope

TSStart(e) == <<>>

Walkable == 63
Batch(st, e) ==
  LET V(i, j) == e.v[e.t[i][j] + 1] IN
  If(/\ Chk("as many", Len(e.after) = Len(e.before))
     /\ \A i \in DOMAIN e.t :
          LET a == V(i, 1)  b == V(i, 2)  c == V(i, 3)
              on == e.after[i] = Walkable
              same == e.after[i] = e.before[i]
              off == e.after[i] = 0 IN
          ChkV("triangle",
               IF Below(a, b, c, e.k) THEN (IF e.op = 1 THEN on ELSE same)
               ELSE IF NotBelow(a, b, c, e.k) THEN (IF e.op = 1 THEN same ELSE off)
               ELSE same \/ (IF e.op = 1 THEN on ELSE off), <<i, e.op, Angles[e.k], a, b, c, e.before[i], e.after[i]>>)
     /\ Chk("areas of no triangle", \A i \in (Len(e.t) + 1)..Len(e.before) : e.after[i] = e.before[i]), st)

TSStep(st, e) ==
  CASE e.ev = "Batch" -> Batch(st, e)
    [] OTHER -> {}
===============================================================================
