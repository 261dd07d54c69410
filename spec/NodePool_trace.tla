--------------------------- MODULE NodePool_trace ----------------------------
(* C22: recorded operations on node pools.  map: (polygon, state) -> number. *)
EXTENDS TraceKit

TSStart(e) == [max |-> e.max, map |-> <<>>]

Get(st, e) ==
  LET k == <<e.id, e.state>> IN
  IF k \in DOMAIN st.map
  THEN If(ChkV("the same node", e.idx = st.map[k], st.map[k]) /\ Chk("not a new node", ~e.new), st)
  ELSE IF Cardinality(DOMAIN st.map) >= st.max
  THEN If(ChkV("no node left", e.idx = 0, st.max), st)
  ELSE If(/\ ChkV("a node", e.idx \in 1..st.max, Cardinality(DOMAIN st.map))
          /\ ChkV("a distinct one", \A j \in DOMAIN st.map : st.map[j] # e.idx, e.idx)
          /\ Chk("blank", e.new),
          [st EXCEPT !.map = (k :> e.idx) @@ @])

Find(st, e) ==
  LET k == <<e.id, e.state>> IN
  If(ChkV("found", e.idx = IF k \in DOMAIN st.map THEN st.map[k] ELSE 0, k), st)

All(st, e) ==
  LET S == {st.map[k] : k \in {k \in DOMAIN st.map : k[1] = e.id}}  n == Min2(e.limit, Cardinality(S)) IN
  If(/\ ChkV("all of them", e.n = n /\ Len(e.idx) = n /\ Range(e.idx) \subseteq S /\ Cardinality(Range(e.idx)) = n, S)
     /\ Chk("beyond the limit", e.clean), st)

\* many nodes at once, of state 0: polygons lo..lo+Len-1
Fill(st, e) ==
  LET n == Len(e.idx)  room == Min2(n, st.max - Cardinality(DOMAIN st.map)) IN
  If(/\ Assert(DOMAIN st.map = {}, "fill")
     /\ Chk("distinct nodes", Cardinality({e.idx[i] : i \in 1..room}) = room /\ \A i \in 1..room : e.idx[i] \in 1..st.max)
     /\ Chk("no node left", \A i \in (room + 1)..n : e.idx[i] = 0)
     /\ ChkV("found again", e.again = SubSeq(e.idx, 1, room), room), st)

TSStep(st, e) ==
  CASE e.ev = "Get" -> Get(st, e)
    [] e.ev = "Find" -> Find(st, e)
    [] e.ev = "All" -> All(st, e)
    [] e.ev = "Clear" -> {[st EXCEPT !.map = <<>>]}
    [] e.ev = "Fill" -> Fill(st, e)
    [] e.ev = "Count" -> If(ChkV("count", e.n = Cardinality(DOMAIN st.map) /\ e.max = st.max, st.max)
                        /\ ChkV("memory: nodes and hash table", e.mem > 16 * e.max + e.hash, <<e.mem, e.hash>>), st)
    [] e.ev = "At" -> \* the node of a number
         If(ChkV("node of that number",
                 IF e.idx = 0 THEN e.none
                 ELSE \A k \in DOMAIN st.map : st.map[k] = e.idx => (~e.none /\ e.id = k[1] /\ e.state = k[2] /\ e.back = e.idx), e.idx), st)
    [] OTHER -> {}
==============================================================================
