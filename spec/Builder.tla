-------------------------------- MODULE Builder --------------------------------
(* The life of a builder of navigation meshes (C35): geometry is loaded (or   *)
(* fails to load) and marked, settings are set, meshes are built, and single  *)
(* tiles of the last mesh are built again or removed.  TLC checks that what   *)
(* is in a mesh depends only on the geometry and the settings at the time it  *)
(* was built, whatever happened before; its transitions are replayed.         *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Tiles,     \* positions of tiles ({}: all in one)
          MaxOps
VARIABLES geom,      \* <<geometry, volumes>>, or None
          set,       \* settings; 0: ones that cannot be built
          log,
          mesh,      \* last mesh: position -> what it was built from; or None
          ops
vars == <<geom, set, log, mesh, ops>>
None == <<>>
P == Tiles \cup {0}  \* 0: the rest of the mesh
Init == geom = None /\ set = 1 /\ log = FALSE /\ mesh = None /\ ops = <<"new">>
Do(o) == Len(ops) <= MaxOps /\ ops' = Append(ops, o)
Load(g) == Do(IF g = 1 THEN "load 1" ELSE "load 2") /\ geom' = <<g, 0>> /\ UNCHANGED <<set, log, mesh>>
Broken == Do("broken") /\ geom' = None /\ UNCHANGED <<set, log, mesh>>
Mark == /\ geom # None
        /\ geom[2] = 0
        /\ Do("mark") /\ geom' = <<geom[1], 1>> /\ UNCHANGED <<set, log, mesh>>
Set(v) == set # v /\ Do(CASE v = 0 -> "set 0" [] v = 1 -> "set 1" [] v = 2 -> "set 2") /\ set' = v /\ UNCHANGED <<geom, log, mesh>>
Log == Do("log") /\ log' = ~log /\ UNCHANGED <<geom, set, mesh>>
Build == /\ Do("build")
         /\ mesh' = (IF geom = None \/ set = 0 THEN mesh ELSE [p \in P |-> <<geom, set>>])
         /\ UNCHANGED <<geom, set, log>>
\* a tile that cannot be built is left empty
Tile(p) == /\ set # 0
           /\ Do(IF p = 1 THEN "tile 1" ELSE "tile 2")
           /\ mesh' = (IF mesh = None THEN mesh ELSE [mesh EXCEPT ![p] = IF geom = None THEN None ELSE <<geom, set>>])
           /\ UNCHANGED <<geom, set, log>>
Remove(p) == /\ set # 0
             /\ Do(IF p = 1 THEN "remove 1" ELSE "remove 2")
             /\ mesh' = (IF mesh = None THEN mesh ELSE [mesh EXCEPT ![p] = None])
             /\ UNCHANGED <<geom, set, log>>
Next == \/ \E g \in {1, 2} : Load(g)
        \/ Broken \/ Mark \/ Log \/ Build
        \/ \E v \in 0..2 : Set(v)
        \/ \E p \in Tiles : Tile(p) \/ Remove(p)
Spec == Init /\ [][Next]_vars
View == <<geom, set, log, mesh>>
\* ------------------------------------------------ what the history says
Last(S, n) == IF \E i \in 1..n : ops[i] \in S THEN CHOOSE i \in 1..n : ops[i] \in S /\ \A j \in (i + 1)..n : ops[j] \notin S ELSE 0
GeomAt(n) == LET i == Last({"load 1", "load 2", "broken"}, n) IN
  IF i = 0 THEN None ELSE IF ops[i] = "broken" THEN None
  ELSE <<IF ops[i] = "load 1" THEN 1 ELSE 2, IF \E j \in i..n : ops[j] = "mark" THEN 1 ELSE 0>>
SetAt(n) == LET i == Last({"set 0", "set 1", "set 2"}, n) IN
  IF i = 0 THEN 1 ELSE CASE ops[i] = "set 0" -> 0 [] ops[i] = "set 1" -> 1 [] OTHER -> 2
Good(n) == ops[n] = "build" /\ GeomAt(n) # None /\ SetAt(n) # 0
Name(p, a, b) == IF p = 1 THEN a ELSE b
\* the operation that last decided what is at p
Decides(p, n) == Good(n) \/ (p # 0 /\ ops[n] \in {Name(p, "tile 1", "tile 2"), Name(p, "remove 1", "remove 2")} /\ \E m \in 1..n : Good(m))
Deciding(p) == IF \E i \in DOMAIN ops : Decides(p, i) THEN CHOOSE i \in DOMAIN ops : Decides(p, i) /\ \A j \in DOMAIN ops : j > i => ~Decides(p, j) ELSE 0
OnlyThat ==
  /\ (mesh = None) = (\A i \in DOMAIN ops : ~Good(i))
  /\ mesh # None => \A p \in P : LET i == Deciding(p) IN
       mesh[p] = IF ops[i] \in {"remove 1", "remove 2"} THEN None ELSE IF GeomAt(i) = None THEN None ELSE <<GeomAt(i), SetAt(i)>>
Edges == PrintT("EDGE " \o ToString(ops'))
================================================================================
