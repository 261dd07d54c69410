----------------------------- MODULE Builder_trace -----------------------------
(* C35: recorded work of builders.  What a geometry gives with given settings *)
(* is learned from builders that are used once (Ref); every other build, by   *)
(* whichever builder and after whatever, must give the same.                  *)
(* A builder: geom ("" for none), set, last mesh.  A mesh: the bytes it was   *)
(* written with and the content of its tiles.                                 *)
EXTENDS TraceKit

New == [geom |-> "", set |-> "1", last |-> 0]
TSStart(e) == [ref |-> <<>>, bld |-> [b \in 1..8 |-> New], mesh |-> <<>>]

Key(b) == b.geom \o "/" \o b.set
Empty == "none"

Load(st, e) ==
  If(Chk("loading", e.ok = e.good), [st EXCEPT !.bld[e.b].geom = e.g])

Ref(st, e) ==
  If(Chk("built twice, differently", e.k \in DOMAIN st.ref => st.ref[e.k] = [ok |-> e.ok, file |-> e.file, tiles |-> e.tiles]),
     [st EXCEPT !.ref = (e.k :> [ok |-> e.ok, file |-> e.file, tiles |-> e.tiles]) @@ @])

Build(st, e) ==
  LET b == st.bld[e.b] IN
  IF b.geom = "" THEN If(Chk("a mesh without geometry", ~e.ok), st)
  ELSE LET r == st.ref[Key(b)] IN
    If(/\ ChkV("success", e.ok = r.ok, <<Key(b), e.ok, r.ok>>)
       /\ ChkV("tiles", e.tiles = r.tiles, <<Key(b), {i \in DOMAIN r.tiles : i \notin DOMAIN e.tiles \/ r.tiles[i] # e.tiles[i]}>>)
       /\ ChkV("bytes", e.file = r.file, Key(b)),
       IF e.ok THEN [st EXCEPT !.bld[e.b].last = e.m, !.mesh = (e.m :> [file |-> e.file, tiles |-> e.tiles]) @@ @] ELSE st)

\* one tile of the last mesh: p gets what is given, the others stay
Change(st, e, what) ==
  LET m == st.bld[e.b].last  want == [st.mesh[m].tiles EXCEPT ![e.p] = what] IN
  If(ChkV("tiles after a single one", e.tiles = want, <<e.p, {i \in DOMAIN want : e.tiles[i] # want[i]}>>),
     [st EXCEPT !.mesh[m] = [file |-> e.file, tiles |-> e.tiles]])

Tile(st, e) ==
  LET b == st.bld[e.b] IN
  Change(st, e, IF b.geom = "" THEN Empty ELSE st.ref[Key(b)].tiles[e.p])

TSStep(st, e) ==
  CASE e.ev = "Load" -> Load(st, e)
    [] e.ev = "Mark" -> {IF st.bld[e.b].geom = "" THEN st ELSE [st EXCEPT !.bld[e.b].geom = @ \o e.v]}
    [] e.ev = "Set" -> {[st EXCEPT !.bld[e.b].set = e.s]}
    [] e.ev = "Ref" -> Ref(st, e)
    [] e.ev = "Build" -> Build(st, e)
    [] e.ev = "Tile" -> Tile(st, e)
    [] e.ev = "Remove" -> Change(st, e, Empty)
    [] e.ev = "Look" -> If(ChkV("a mesh built before was changed", e.file = st.mesh[e.m].file, e.m), st)
    [] OTHER -> {}
================================================================================
