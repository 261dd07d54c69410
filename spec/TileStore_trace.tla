-------------------------- MODULE TileStore_trace ---------------------------
(* The observable behaviour of a navigation mesh as a store of tiles         *)
(* (C01, C02, C03): which tiles are present, under which references, and     *)
(* which operations succeed.  References are opaque tokens; the              *)
(* specification says which of them resolve, not how they are made.          *)
EXTENDS TraceKit

TSStart(e) ==
  [maxT |-> e.maxTiles, saltMax |-> e.saltMax, pos |-> e.pos,
   live |-> <<>>,      \* token -> tile [p, c, np, slot]
   slotOf |-> <<>>,    \* token -> slot it names
   npOf |-> <<>>,      \* token -> polygons of the tile it was last issued for
   adv |-> <<>>,       \* slot -> number of removals from it
   last |-> <<>>,      \* token -> adv of its slot when it was freshly issued
   loose |-> {},       \* slots whose references may recur (restored after a wrap around)
   dig |-> e.digest, dirty |-> FALSE]

Live(st) == DOMAIN st.live
Taken(st, p) == \E t \in Live(st) : st.live[t].p = p
SlotTaken(st, sl) == \E t \in Live(st) : st.live[t].slot = sl
Adv(st, sl) == IF sl \in DOMAIN st.adv THEN st.adv[sl] ELSE 0

MayAdd(st, e) ==
  /\ e.kind = "ok"
  /\ ~Taken(st, e.p)
  /\ \/ e.last = 0 /\ Cardinality(Live(st)) < st.maxT
     \/ e.last > 0 /\ ~SlotTaken(st, st.slotOf[e.last])

\* a reference that may be given to a fresh tile in slot sl: never issued
\* before, unless the counter of the slot has wrapped around
MayIssue(st, tok, sl) ==
  \/ tok \notin DOMAIN st.slotOf
  \/ /\ st.slotOf[tok] = sl
     /\ sl \in st.loose \/ Adv(st, sl) - st.last[tok] >= st.saltMax

Add(st, e) ==
  IF MayAdd(st, e)
  THEN /\ ChkV("add must succeed", e.res = "ok", e.last)
       /\ Chk("reference", e.ref > 0 /\ e.ref \notin Live(st))
       /\ Chk("slot", e.slot >= 0 /\ e.slot < st.maxT /\ ~SlotTaken(st, e.slot))
       /\ IF e.last = 0 THEN ChkV("fresh reference", MayIssue(st, e.ref, e.slot), e.ref)
          ELSE Chk("restored reference", e.ref = e.last /\ e.slot = st.slotOf[e.last])
  ELSE /\ ChkV("add must fail", e.res = "fail", e.kind)
       /\ e.kind = "magic" => Judge({"C03"}, "wrong magic reported", e.mg)
       /\ e.kind = "version" => Judge({"C03"}, "wrong version reported", e.vn)

AfterAdd(st, e) ==
  IF e.res # "ok" THEN st
  ELSE [st EXCEPT
          !.live = (e.ref :> [p |-> e.p, c |-> e.c, np |-> e.np, slot |-> e.slot]) @@ @,
          !.slotOf = (e.ref :> e.slot) @@ @,
          !.npOf = (e.ref :> e.np) @@ @,
          !.last = IF e.last = 0 \/ e.ref \notin DOMAIN @ THEN (e.ref :> Adv(st, e.slot)) @@ @ ELSE @,
          !.loose = IF e.last > 0 /\ Adv(st, e.slot) >= st.saltMax - 1 THEN @ \cup {e.slot} ELSE @,
          !.dirty = TRUE]

Remove(st, e) ==
  IF e.t \in Live(st)
  THEN /\ Chk("remove must succeed", e.res = "ok")
       /\ Judge({"C01"}, "removed data", e.data = st.live[e.t].c)
  ELSE Chk("remove must fail", e.res = "fail") /\ Judge({"C03"}, "no data", e.data = "none")

AfterRemove(st, e) ==
  IF e.res # "ok" THEN st
  ELSE [st EXCEPT
          !.live = [t \in Live(st) \ {e.t} |-> st.live[t]],
          !.adv = (st.live[e.t].slot :> (Adv(st, st.live[e.t].slot) + 1)) @@ @,
          !.dirty = TRUE]

At(st, i) == {t \in Live(st) : st.live[t].p = i}
Here(st, x, y) == {st.live[t].c : t \in {t \in Live(st) : st.pos[st.live[t].p][1] = x /\ st.pos[st.live[t].p][2] = y}}

ObsLookups(st, e) ==
  /\ \A i \in 1..Len(st.pos) :
       LET a == At(st, i) IN
       IF a = {} THEN JudgeV({"C01"}, "nothing at position", e.at[i] = "none" /\ e.refAt[i] = 0, i)
       ELSE LET t == CHOOSE t \in a : TRUE IN
            JudgeV({"C01"}, "tile at position", e.at[i] = st.live[t].c /\ e.refAt[i] = t, i)
  /\ \A j \in 1..Len(e.here) :
       LET h == e.here[j]  all == Here(st, h.x, h.y) IN
       JudgeV({"C01"}, "all tiles at position",
              /\ h.n = Min2(h.max, Cardinality(all))
              /\ Len(h.c) = h.n
              /\ Cardinality(Range(h.c)) = h.n
              /\ Range(h.c) \subseteq all, j)
  /\ Judge({"C01"}, "ghosts", e.ghosts = 0)

ObsRefs(st, e) ==
  \A j \in 1..Len(e.refs) :
    LET r == e.refs[j] IN
    IF r.t \in Live(st)
    THEN LET v == st.live[r.t] IN
         /\ JudgeV({"C01", "C02"}, "tile by reference", r.by = v.c, r.t)
         /\ JudgeV({"C02"}, "polygons by reference", r.pv = v.np /\ r.res = v.np /\ r.pr = v.c /\ r.po = 0, r.t)
    ELSE /\ JudgeV({"C01", "C02"}, "stale tile reference", r.by = "none", r.t)
         /\ JudgeV({"C02"}, "stale polygon reference", r.pv = 0 /\ r.res = 0 /\ r.po = 0, r.t)

ObsUnique(st, e) ==
  /\ Judge({"C02"}, "every polygon has its own reference",
           e.total = SumFn([t \in Live(st) |-> st.live[t].np], Live(st)) /\ e.distinct = e.total /\ e.zero = 0)
  /\ Judge({"C02"}, "null reference", ~e.nullValid)

Obs(st, e) ==
  /\ ObsLookups(st, e)
  /\ ObsRefs(st, e)
  /\ ObsUnique(st, e)
  /\ Judge({"C03"}, "failed operation changed the mesh", st.dirty \/ e.digest = st.dig)

Single(e) == \* InitForSingleTile with data of the wrong kind
  /\ Chk("init must fail", e.res = "fail")
  /\ Judge({"C03"}, "reported", (e.kind = "magic" => e.mg) /\ (e.kind = "version" => e.vn))

TSStep(st, e) ==
  CASE e.ev = "Add" -> If(Add(st, e), AfterAdd(st, e))
    [] e.ev = "Remove" -> If(Remove(st, e), AfterRemove(st, e))
    [] e.ev = "Obs" -> If(Obs(st, e), [st EXCEPT !.dig = e.digest, !.dirty = FALSE])
    [] e.ev = "Single" -> If(Single(e), st)
    [] OTHER -> {}
=============================================================================
