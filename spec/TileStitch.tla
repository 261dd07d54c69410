----------------------------- MODULE TileStitch -----------------------------
(* Design of the connection bookkeeping: a tile that arrives is connected to *)
(* every present tile it borders, in both directions; when a tile leaves,    *)
(* its neighbours drop their connections to it.  TLC checks that what is     *)
(* connected is then a function of which tiles are present, and that         *)
(* connection records are neither leaked nor exhausted.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Tiles,    \* tile definitions
          Border,   \* set of unordered pairs of tiles that border each other
          Links1,   \* connections a tile has to each neighbour
          Cap,      \* connection records of a tile
          MaxOps

VARIABLES present, links, free, hist
vars == <<present, links, free, hist>>
view == <<present, links, free>>

Nei(t) == {u \in Tiles : {t, u} \in Border /\ t # u}
Expected(t) == {<<u, i>> : u \in Nei(t) \cap present, i \in 1..Links1}

Init == /\ present = {} /\ hist = <<>>
        /\ links = [t \in Tiles |-> {}]
        /\ free = [t \in Tiles |-> Cap]

Add(t) ==
  /\ t \notin present
  /\ present' = present \cup {t}
  /\ hist' = Append(hist, <<"add", t>>)
  /\ links' = [u \in Tiles |->
       IF u = t THEN {<<v, i>> : v \in Nei(t) \cap present, i \in 1..Links1}
       ELSE IF u \in present /\ u \in Nei(t) THEN links[u] \cup {<<t, i>> : i \in 1..Links1}
       ELSE links[u]]
  /\ free' = [u \in Tiles |->
       IF u = t THEN Cap - Links1 * Cardinality(Nei(t) \cap present)
       ELSE IF u \in present /\ u \in Nei(t) THEN free[u] - Links1 ELSE free[u]]

Remove(t) ==
  /\ t \in present
  /\ present' = present \ {t}
  /\ hist' = Append(hist, <<"remove", t>>)
  /\ links' = [u \in Tiles |-> IF u = t THEN {} ELSE {x \in links[u] : x[1] # t}]
  /\ free' = [u \in Tiles |->
       IF u = t THEN Cap ELSE free[u] + Cardinality({x \in links[u] : x[1] = t})]

Next == \E t \in Tiles : Add(t) \/ Remove(t)
Spec == Init /\ [][Next]_vars

Function == \A t \in Tiles : links[t] = IF t \in present THEN Expected(t) ELSE {}
Symmetric == \A t, u \in Tiles : (\E i \in 1..Links1 : <<u, i>> \in links[t]) <=> (\E i \in 1..Links1 : <<t, i>> \in links[u])
NoLeak == \A t \in Tiles : free[t] + Cardinality(links[t]) = Cap
Bound == Len(hist) < MaxOps
Edges == PrintT("EDGE " \o ToString(hist'))
AllBorder == {{a, b} : a \in Tiles, b \in Tiles}
=============================================================================
