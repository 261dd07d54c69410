---------------------------- MODULE Terrain_trace -----------------------------
(* C37: navigation meshes of terrain made of level blocks.  Where agents can   *)
(* certainly walk, and where they may be able to, is computed from the blocks  *)
(* cell by cell; in between are passages of about the width of the agent.      *)
EXTENDS TraceKit, Terrain

MaxI(a, b) == IF a > b THEN a ELSE b
TSStart(e) ==
  LET G == Good(e)
      nb == StepFn(e, G)
      must == Must(e, nb, G)
      may == May(e, nb, G)
      P == DOMAIN e.places
      Sq(p, n) == {Idx(e, x, z) : x \in MaxI(0, e.places[p][1] - n)..Min2(W(e) - 1, e.places[p][1] + n),
                                  z \in MaxI(0, e.places[p][2] - n)..Min2(H(e) - 1, e.places[p][2] + n)}
      At(p) == LET i == Idx(e, e.places[p][1], e.places[p][2]) IN {<<i, k>> : k \in {k \in DOMAIN Block(e, i) : Block(e, i)[k][2] = e.places[p][3]}}
      Level(p) == \A i \in Sq(p, e.r + 4) : \E k \in DOMAIN Block(e, i) : Block(e, i)[k][2] = e.places[p][3] /\ <<i, k>> \in G
      On(p) == At(p) # {} /\ At(p) \subseteq must /\ Level(p)
      Off(p) == \A i \in Sq(p, 4) : \A k \in DOMAIN Block(e, i) : <<i, k>> \in may => Abs(Block(e, i)[k][2] - e.places[p][3]) > 5
      kind == [p \in P |-> IF On(p) THEN "on" ELSE IF Off(p) THEN "off" ELSE "?"]
      one(p) == CHOOSE f \in At(p) : TRUE
      ons == {p \in P : kind[p] = "on"}
      starts == {one(p) : p \in ons}
      mustP == Parts(nb, must, starts)
      mayP == Parts(nb, may, starts)
      Both(S, p, q) == \E R \in S : one(p) \in R /\ one(q) \in R
      \* Tiles are linked at up to twice the climb, at the heights of polygons
      \* that may lead over steps: floors above each other may be joined.
      stacked == \E b \in Range(e.blocks) : \E i, j \in DOMAIN b :
                   i < j /\ b[i + 1][1] - b[i][2] >= e.h /\ (e.c >= 6 \/ b[j][2] - b[i][2] <= 2 * e.c + 1)
  IN [places |-> e.places, kind |-> kind, stacked |-> stacked,
      yes |-> {x \in ons \X ons : Both(mustP, x[1], x[2])},
      no |-> {x \in ons \X ons : ~Both(mayP, x[1], x[2])}]

\* tiles are squares of so many cells
Tiles(st, e) ==
  e.kind = "tile" /\ e.ok =>
    \A p \in DOMAIN st.places :
      LET t == <<st.places[p][1] \div e.size, st.places[p][2] \div e.size>> IN
      /\ ChkV("tile of a position", e.at[p] = t, <<p, e.at[p], t>>)
      /\ e.on[p] => ChkV("tile of a polygon", e.of[p] = t, <<p, e.of[p], t>>)

Mesh(st, e) ==
  LET K == DOMAIN st.kind IN
  If(/\ Tiles(st, e)
     /\ Chk("built", (\E p \in K : st.kind[p] = "on") => e.ok)
     /\ e.ok => /\ ChkV("a place where agents fit is not on the mesh", \A p \in K : st.kind[p] = "on" => e.on[p], <<e.kind, {p \in K : st.kind[p] = "on" /\ ~e.on[p]}>>)
                /\ ChkV("a place without ground is on the mesh", \A p \in K : st.kind[p] = "off" => ~e.on[p], <<e.kind, {p \in K : st.kind[p] = "off" /\ e.on[p]}>>)
                /\ ChkV("no path where agents can walk", \A x \in st.yes : e.paths[x[1]][x[2]], <<e.kind, {x \in st.yes : ~e.paths[x[1]][x[2]]}>>)
                /\ ChkV("a path where agents cannot walk", (e.kind = "tile" /\ st.stacked) \/ \A x \in st.no : ~e.paths[x[1]][x[2]], <<e.kind, {x \in st.no : e.paths[x[1]][x[2]]}>>),
     st)

TSStep(st, e) ==
  CASE e.ev = "Mesh" -> Mesh(st, e)
    [] OTHER -> {}
================================================================================
