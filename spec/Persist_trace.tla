--------------------------- MODULE Persist_trace ----------------------------
(* C05, C06: a file holds the mesh that was saved to it.                     *)
(* A mesh is [par, tiles], a tile its slot, reference, content and           *)
(* connections.                                                              *)
EXTENDS TraceKit

TSStart(e) == [m |-> [none |-> TRUE], files |-> <<>>]

Tiles(m) == Range(m.tiles)
\* connections that were dropped for want of records are not compared
Full(m) == \E t \in Tiles(m) : t.lk = "full"
Plain(t) == [slot |-> t.slot, ref |-> t.ref, c |-> t.c]
SameMesh(a, b) ==
  /\ Chk("configuration", a.par = b.par)
  /\ Chk("which tiles", {t.slot : t \in Tiles(a)} = {t.slot : t \in Tiles(b)} /\ Len(a.tiles) = Len(b.tiles))
  /\ Chk("references", {<<t.slot, t.ref>> : t \in Tiles(a)} = {<<t.slot, t.ref>> : t \in Tiles(b)})
  /\ ChkV("content", {Plain(t) : t \in Tiles(a)} = {Plain(t) : t \in Tiles(b)},
          {t.slot : t \in {t \in Tiles(a) : Plain(t) \notin {Plain(u) : u \in Tiles(b)}}})
  /\ (Full(a) \/ Full(b) \/
      ChkV("connections", {<<t.slot, t.lk>> : t \in Tiles(a)} = {<<t.slot, t.lk>> : t \in Tiles(b)},
           {t.slot : t \in {t \in Tiles(a) : <<t.slot, t.lk>> \notin {<<u.slot, u.lk>> : u \in Tiles(b)}}}))

Save(st, e) ==
  /\ Chk("save succeeds", e.ok)
  /\ Chk("announced size", e.size = e.len /\ e.flen = e.len)
  /\ Chk("file and stream agree", e.fb = e.b)
  /\ Chk("saving changes the mesh", e.m = st.m)

Load(st, e) ==
  LET f == st.files[e.id] IN
  /\ Chk("load succeeds", e.ok)
  /\ SameMesh(f.m, e.m)
  /\ Chk("size after loading", e.size = f.len)
  \* removals leave connection records in an order of their own; loading puts them into their proper order
  /\ Chk("saving again writes the same bytes", e.b2 = e.b /\ e.len = f.len /\ (f.pure => e.b = f.b))
  /\ (Full(f.m) \/ Chk("reachability after loading", e.qr = f.qr))
  /\ (Full(f.m) \/ ~f.pure \/ Chk("answers after loading", e.q = f.q))

Stream(st, e) ==
  /\ ChkV("as the model of the stream says", e.ok = e.want /\ e.nil = ~e.ok, <<e.ok, e.want>>)
  /\ e.ok => SameMesh(st.files[e.id].m, e.m)

TSStep(st, e) ==
  CASE e.ev = "Mesh" -> {[st EXCEPT !.m = e.m]}
    [] e.ev = "Save" -> If(Save(st, e), [st EXCEPT !.files = (e.id :> [m |-> e.m, b |-> e.b, len |-> e.len, q |-> e.q, qr |-> e.qr,
                                                                       pure |-> e.pure]) @@ @])
    [] e.ev = "Load" -> If(Load(st, e), st)
    [] e.ev = "Stream" -> If(Stream(st, e), st)
    [] e.ev = "Cuts" -> If(ChkV("incomplete file accepted", e.hi <= st.files[e.id].len => e.acc = <<>>, e.acc), st)
    [] e.ev = "Flips" -> If(ChkV("wrong magic or version accepted", e.acc = <<>>, e.acc), st)
    [] e.ev = "WriteFaults" -> If(ChkV("failed write not reported", e.acc = <<>>, e.acc) /\ Chk("mesh changed", e.m = st.m), st)
    [] OTHER -> {}
=============================================================================
