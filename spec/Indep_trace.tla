----------------------------- MODULE Indep_trace -----------------------------
(* C21: results of queries made in histories and at the same time.           *)
(* res: query -> its result when made alone by a new query object            *)
EXTENDS TraceKit

TSStart(e) == [res |-> <<>>, mesh |-> "", other |-> 0]

TSStep(st, e) ==
  CASE e.ev \in {"Add", "Remove"} -> If(Chk("tile", e.ok), st)
    [] e.ev = "Graph" -> {st}
    [] e.ev = "Alone" -> {[st EXCEPT !.res = (e.q :> e.res) @@ @]}
    [] e.ev = "Mesh" -> If(st.mesh = "" \/ ChkV("the mesh was modified", e.print = st.mesh, e), [st EXCEPT !.mesh = e.print])
    [] e.ev = "Result" -> If(ChkV("depends on something else", e.res = st.res[e.q], <<e.how, e.q, st.res[e.q]>>), st)
    [] OTHER -> {}
==============================================================================
