----------------------------- MODULE Paths_trace -----------------------------
(* C11-C15, C19: recorded path searches.                                     *)
(*                                                                           *)
(* State: the graph of the mesh and the sliced search                        *)
(*   ph    none, progress, decided, failed                                   *)
(*   arg   arguments of the search    ref  what one call gave, if known      *)
(*   cnt   steps done                 E    connections usable at some time   *)
(*   chg   the mesh was changed during the search                            *)
EXTENDS TraceKit, Paths

C11 == {"C11"}
C13 == {"C13"}
C14 == {"C14"}
C15 == {"C15"}
C19 == {"C19"}
Corr == {"C11", "C12", "C13", "C14", "C15"}   \* a broken corridor breaks all of these

NoSearch == [ph |-> "none"]
TSStart(e) == [G |-> [n |-> <<>>, out |-> <<>>, e |-> <<>>], s |-> NoSearch]

Graph(e) ==
  LET I == {e.n[i].id : i \in 1..Len(e.n)}
      pos == [x \in I |-> CHOOSE i \in 1..Len(e.n) : e.n[i].id = x]
  IN [n |-> [x \in I |-> e.n[pos[x]]],
      out |-> [x \in I |-> {e.e[i][2] : i \in {i \in 1..Len(e.e) : e.e[i][1] = x}}],
      e |-> e.e]

Edges(G, inc, exc) ==
  LET A == Allowed(G, inc, exc) IN UNION {{<<x, y>> : y \in G.out[x] \cap A} : x \in DOMAIN G.n}

Ample(G, nodes) == nodes >= 4 * Cardinality(DOMAIN G.n) + 8

\* ------------------------------------------------------------ whole searches
\* a result with ample result space
Full(G, e, r) ==
  LET A == Allowed(G, e.inc, e.exc)
      R == Reach(G, A, {e.from}, {e.from})
      end == r.path[Len(r.path)]
      same == e.from = e.to
      anyangle == e.opt # 0
      searched == Ample(G, e.nodes) \/ ~r.oon
  IN
  /\ Chk("success", r.st = "ok" /\ Len(r.path) = r.n /\ r.n > 0 /\ r.clean /\ ~r.short /\ ~r.inv)
  /\ JudgeV(Corr, "starts at the start polygon", r.path[1] = e.from, r.path)
  /\ JudgeV(Corr, "connected", Connected(r.path, LAMBDA x, y : y \in G.out[x]), r.path)
  /\ JudgeV(Corr \cup C19, "forbidden polygon", \A i \in 2..Len(r.path) : r.path[i] \in A, r.path)
  /\ Judge(C11 \cup C13, "out of nodes with enough of them", Ample(G, e.nodes) => ~r.oon)
  /\ (Has(r, "need") => /\ JudgeV(C13, "does not say that it ran out of nodes", r.need > e.nodes => r.oon, r.need)
                         /\ JudgeV(C13, "ran out of nodes", r.need <= e.nodes => ~r.oon /\ r.path = r.ample, r.need))
  /\ Judge(C11 \cup C13 \cup {"C12"}, "complete and not partial", r.part <=> end # e.to)
  /\ (searched => JudgeV(C11 \cup C13, "complete exactly when reachable", (end = e.to) <=> (e.to \in R), <<end, R>>))
  /\ (searched /\ ~same /\ end # e.to =>
        JudgeV(C11 \cup C13, "nearest reachable polygon", NearestEnd(G, R, e.from, e.sp, e.ep, end), end))
  /\ (e.w /\ searched /\ end = e.to /\ ~same /\ ~anyangle =>
        /\ Assert(LowerBound(G, A, e.from, e.d, e.pair), "certificate")
        /\ JudgeV({"C12", "C13"}, "cheapest", \A i \in 1..Len(e.d) : e.d[i][1] = e.to => PathCost(G, e.pair, r.path) <= e.d[i][2],
                  <<PathCost(G, e.pair, r.path), r.path>>))

\* a result with too little or just enough space, against the full one
Short(how, f, r) ==
  LET n == Len(f.path) IN
  IF r.cap >= n
  THEN /\ Chk("same result", r.path = f.path /\ r.part = f.part /\ r.oon = f.oon /\ r.st = "ok" /\ r.clean)
       /\ Chk("says it was too small", r.short => (how = "sliced" /\ r.cap = n))
  ELSE /\ ChkV("first part", r.n = r.cap /\ r.path = SubSeq(f.path, 1, r.cap), r)
       /\ Chk("says it was too small", r.st = "ok" /\ r.short)
       /\ Chk("wrote past the buffer", r.clean)
       /\ Chk("other flags", r.part = f.part /\ r.oon = f.oon)

Path(st, e) ==
  /\ Full(st.G, e, e.full)
  /\ (Has(e, "res") => Short(e.how, e.full, e.res))

\* ------------------------------------------------------------ sliced searches
Here(G, x) == x \in DOMAIN G.n

SInit(st, e) ==
  LET ok == Here(st.G, e.from) /\ Here(st.G, e.to) /\ ~(Has(e, "bad") /\ e.bad)
      same == e.from = e.to
  IN
  IF ~ok
  THEN If(Chk("refused", e.st = "failed" /\ e.inv), [st EXCEPT !.s = [ph |-> "failed"]])
  ELSE If(Chk("started", e.st = IF same THEN "ok" ELSE "progress"),
          [st EXCEPT !.s = [ph |-> IF same THEN "decided" ELSE "progress",
                            arg |-> e, ref |-> IF Has(e, "ref") THEN <<e.ref>> ELSE <<>>,
                            cnt |-> 0, known |-> TRUE, chg |-> FALSE, E |-> Edges(st.G, e.inc, e.exc)]])

SUpd(st, e) ==
  LET q == st.s IN
  IF q.ph # "progress"
  THEN If(Chk("stays as it was", e.st = CASE q.ph = "decided" -> "ok"
                                           [] q.ph = "failed" -> "failed"
                                           [] OTHER -> IF e.st = "failed" THEN "failed" ELSE "none")
          /\ Chk("steps of a search not in progress", e.done \in {-9, -7, 0}), st)
  ELSE LET gone == ~Here(st.G, q.arg.from) \/ ~Here(st.G, q.arg.to)
           cnt == q.cnt + (IF e.done > 0 THEN e.done ELSE 0)
           kn == q.known /\ e.done # -9
           ph == CASE e.st = "progress" -> "progress" [] e.st = "ok" -> "decided" [] e.st = "failed" -> "failed" [] OTHER -> "bad"
       IN If(/\ Chk("status", ph # "bad")
             /\ Judge(C15, "goes on without its start or goal", gone => ph = "failed")
             /\ Judge(C14 \cup C15, "fails for no reason", (ph = "failed") => q.chg)
             /\ Judge(C14, "more steps than allowed", e.done <= (IF e.max > 0 THEN e.max ELSE 0))
             /\ Judge(C14, "number of steps", e.done = -9 \/ e.done >= 0 \/ (ph = "failed" /\ e.done = -7))
             /\ (q.ref # <<>> /\ kn /\ ~q.chg =>
                   JudgeV(C14, "decided", (ph = "decided") <=> (cnt = q.ref[1].total), <<cnt, q.ref[1].total>>)),
             [st EXCEPT !.s.ph = ph, !.s.cnt = cnt, !.s.known = kn])

\* a corridor over connections that were there at some time of the search
Corridor(st, r) ==
  LET q == st.s
  IN
  /\ Chk("buffer", r.n = Len(r.path) /\ r.clean /\ r.n > 0)
  /\ JudgeV(Corr, "starts at the start polygon", r.path[1] = q.arg.from, r.path)
  /\ JudgeV(Corr \cup C19, "corridor", Connected(r.path, LAMBDA x, y : <<x, y>> \in q.E), r.path)

SFin(st, e) ==
  LET q == st.s IN
  IF q.ph \in {"none", "failed"}
  THEN If(Chk("no search to finish", e.st = "failed" /\ e.n = 0), [st EXCEPT !.s = NoSearch])
  ELSE IF e.st = "failed"
  \* only when the mesh changed under the search
  THEN If(Judge(C14 \cup C15, "fails for no reason", q.chg), [st EXCEPT !.s = NoSearch])
  ELSE LET last == e.path[Len(e.path)] IN
       If(/\ Chk("status", e.st = "ok")
          /\ Corridor(st, e)
          /\ (~e.short => JudgeV(Corr, "complete and not partial", e.part <=> last # q.arg.to, e.path))
          /\ (q.ph = "decided" /\ ~q.chg /\ q.ref # <<>> =>
                JudgeV(C14, "same as in one call", /\ e.path = q.ref[1].path /\ e.part = q.ref[1].part
                                                   /\ e.oon = q.ref[1].oon /\ e.short = q.ref[1].short, <<e.path, q.ref[1].path>>)),
          [st EXCEPT !.s = NoSearch])

SFinP(st, e) ==
  LET q == st.s IN
  IF q.ph \in {"none", "failed"}
  THEN If(Chk("no search to finish", e.st = "failed" /\ e.n = 0), [st EXCEPT !.s = NoSearch])
  ELSE IF e.ex = <<>>
  THEN If(Chk("nothing to follow", e.st = "failed"), st)
  ELSE IF e.st = "failed"
  THEN If(Judge(C14 \cup C15, "fails for no reason", q.chg), [st EXCEPT !.s = NoSearch])
  ELSE LET last == e.path[Len(e.path)]
           V == {i \in 1..Len(e.ex) : e.vis[i]} IN
       If(/\ Chk("status", e.st = "ok")
          /\ Corridor(st, e)
          /\ (~e.short /\ q.arg.from # q.arg.to =>
                JudgeV(C14, "furthest visited polygon", V # {} => last = e.ex[CHOOSE i \in V : \A j \in V : j <= i], <<e.path, e.ex, e.vis>>))
          /\ (q.arg.from # q.arg.to => JudgeV(C14, "partial", V = {} => e.part, e)),
          [st EXCEPT !.s = NoSearch])

\* -------------------------------------------------------------------- filter
Valid(st, e) ==
  LET h == Here(st.G, e.id) IN
  /\ Chk("mask", e.ginc = e.inc /\ e.gexc = e.exc)
  /\ Chk("known", e.known = h)
  /\ Chk("valid", e.v = (h /\ Permits(st.G.n[e.id].f, e.inc, e.exc)))
  /\ (h => Chk("passes", e.pass = Permits(st.G.n[e.id].f, e.inc, e.exc)))

Near(st, e) ==
  Chk("nearest polygon", e.st = "ok" /\ (e.none \/ e.ref \in Allowed(st.G, e.inc, e.exc)))

Ray(st, e) ==
  \* nothing at all when the start is not quite on its polygon
  /\ ChkV("ray", e.st = "ok" /\ (e.path # <<>> => e.path[1] = e.from), e.path)
  /\ ChkV("forbidden polygon", \A i \in 2..Len(e.path) : e.path[i] \in Allowed(st.G, e.inc, e.exc), e.path)
  /\ ChkV("connected", Connected(e.path, LAMBDA x, y : y \in st.G.out[x]), e.path)

CostOf(sets, f, a) ==
  LET S == {i \in 1..Len(sets) : sets[i][1] = f /\ sets[i][2] = a} IN
  IF S = {} THEN 1 ELSE sets[CHOOSE i \in S : \A j \in S : j <= i][3]

AreaCosts(st, e) ==
  \A f \in 1..2 :
    /\ \A a \in 0..63 : ChkV("area cost", e.got[f][a + 1] = 16 * CostOf(e.sets, f, a), <<f, a>>)
    /\ ChkV("cost", e.cost[f] = 64 * CostOf(e.sets, f, st.G.n[e.id].a), f)

\* ----------------------------------------------------------------------------
\* ------------------------------------------------ invalid calls (C20)
\* req: references that have to be valid, refs: those that may be left out
Refuse(st, e) ==
  LET inv == e.bad \/ (\E i \in 1..Len(e.req) : ~Here(st.G, e.req[i])) \/ \E i \in 1..Len(e.refs) : ~Here(st.G, e.refs[i]) IN
  If(/\ (~e.weak => ChkV("refused", inv => e.st = "failed", e.op))
     /\ (~e.weak => ChkV("refused for no reason", ~inv => e.st # "failed", e.op))
     /\ (e.ask => ChkV("invalid parameter", inv => e.inv, e.op))
     /\ ChkV("mesh", e.before = e.after, e.op), st)

Limit(st, e) ==
  LET ok == e.n > 0 /\ e.n <= 65535 IN
  If(ChkV("node limit", IF ok THEN e.st = "ok" /\ e.max = e.n ELSE e.st = "failed" /\ e.inv, e.n), st)

TSStep(st, e) ==
  CASE e.ev = "Refuse" -> Refuse(st, e)
    [] e.ev = "Limit" -> Limit(st, e)
    [] e.ev \in {"Add", "Remove"} -> If(Chk("tile", e.ok), st)
    [] e.ev = "SetFlags" -> {st}
    [] e.ev = "Graph" ->
         LET G == Graph(e) IN
         {IF st.s.ph \in {"progress", "decided"}
          THEN [G |-> G, s |-> [st.s EXCEPT !.chg = TRUE, !.E = @ \cup Edges(G, st.s.arg.inc, st.s.arg.exc)]]
          ELSE [st EXCEPT !.G = G]}
    [] e.ev = "Path" -> If(Path(st, e), [st EXCEPT !.s = IF e.full.total >= 0 THEN NoSearch ELSE @])
    [] e.ev = "SInit" -> SInit(st, e)
    [] e.ev = "SUpd" -> SUpd(st, e)
    [] e.ev = "SFin" -> SFin(st, e)
    [] e.ev = "SFinP" -> SFinP(st, e)
    [] e.ev = "Valid" -> If(Valid(st, e), st)
    [] e.ev = "Near" -> If(Near(st, e), st)
    [] e.ev = "Ray" -> If(Ray(st, e), st)
    [] e.ev = "AreaCosts" -> If(AreaCosts(st, e), st)
    [] OTHER -> {}
=============================================================================
