----------------------------- MODULE Walk_trace ------------------------------
(* C16, C17: recorded straight paths; C18: recorded rays.                    *)
EXTENDS TraceKit, Walk

TSStart(e) == [G |-> [n |-> <<>>, out |-> <<>>, e |-> <<>>]]

Graph(e) ==
  LET I == {e.n[i].id : i \in 1..Len(e.n)}
      pos == [x \in I |-> CHOOSE i \in 1..Len(e.n) : e.n[i].id = x]
  IN [n |-> [x \in I |-> e.n[pos[x]]],
      out |-> [x \in I |-> {e.e[i][2] : i \in {i \in 1..Len(e.e) : e.e[i][1] = x}}],
      e |-> e.e]

Here(G, x) == x \in DOMAIN G.n

\* index of the last polygon connected with the first one along the corridor
Whole(G, path) ==
  CHOOSE k \in 1..Len(path) :
    /\ \A i \in 1..(k - 1) : Portals(G, path[i], path[i + 1]) # {}
    /\ \/ k = Len(path) \/ ~Here(G, path[k + 1]) \/ Portals(G, path[k], path[k + 1]) = {}

Pos(path, x) == CHOOSE i \in 1..Len(path) : path[i] = x
In2(path, x) == \E i \in 1..Len(path) : path[i] = x

\* number of portals passed when the point with reference x is left
Passed(path, n, x) == IF x = 0 THEN n ELSE Pos(path, x) - 1

\* flags of a point at which polygon x is entered
Entering(G, x) == IF G.n[x].off THEN 4 ELSE 0

\* the taut line through path[1..n]
Base(G, e, b, n) ==
  LET path == e.path
      broken == n < Len(path)
      m == Len(b.pts)
      Pt(i) == b.pts[i]
      known == \A i \in 1..m : b.refs[i] = 0 \/ (In2(path, b.refs[i]) /\ Pos(path, b.refs[i]) <= n)
      pas(i) == IF i = m /\ ~broken THEN n ELSE Passed(path, n, b.refs[i])
      pol(j) == Portals(G, path[j], path[j + 1])
      legs == IF broken THEN m - 2 ELSE m - 1
      t == Slack(G, path, n)
  IN
  /\ Chk("success", b.st = "ok" /\ ~b.inv /\ ~b.oon /\ ~b.short /\ b.clean /\ b.n = m /\ m >= 1)
  /\ Chk("partial", b.part <=> broken)
  /\ Chk("reported twice", ~b.dup)
  /\ ChkV("start point", Clamped(e.sp, Pt(1), G.n[path[1]].v), <<e.sp, Pt(1), G.n[path[1]].v>>)
  /\ ChkV("end point", Clamped(e.ep, Pt(m), G.n[path[n]].v), <<e.ep, Pt(m), G.n[path[n]].v>>)
  /\ ChkV("references", known /\ (IF broken THEN b.refs[m] = path[n] ELSE b.refs[m] = 0)
                        /\ \A i \in 1..(m - 1) : b.refs[i] # 0, b.refs)
  /\ ChkV("flags", /\ b.fl[m] = IF broken THEN 0 ELSE 2
                   /\ \A i \in 1..(m - 1) : b.fl[i] = IF i = 1 /\ b.refs[1] = path[1] THEN 1 ELSE Entering(G, b.refs[i]),
          <<b.refs, b.fl>>)
  /\ ChkV("order", /\ \A i \in 1..(m - 2) : pas(i) < pas(i + 1)
                   /\ (m > 1 => pas(m - 1) <= pas(m)), b.refs)
  /\ ChkV("corners", \A i \in 1..(m - 1) :
            IF i = 1 /\ pas(1) = 0 THEN TRUE
            ELSE \E P \in pol(pas(i)) :
                   IF i = 1 THEN Near(Pt(1), P[1]) \/ Near(Pt(1), P[2]) 
                   ELSE IF i > legs THEN Near3(Pt(i), P[1]) \/ Near3(Pt(i), P[2])
                   ELSE Turns(Pt(i - 1), Pt(i), Pt(i + 1), P, t,
                              Murky(G, path, n, Pt(i - 1), Pt(i), Pt(i + 1), t)),
          <<path, b.pts, b.refs>>)
  /\ ChkV("legs", /\ \A i \in 1..legs : \A j \in (pas(i) + 1)..(pas(i + 1) - 1) :
                       \E P \in pol(j) : Through(Pt(i), Pt(i + 1), P, t)
                  /\ (pas(1) > 0 => \A j \in 1..(pas(1) - 1) : \E P \in pol(j) : On(Pt(1), P[1], P[2])),
          <<path, b.pts, b.refs>>)

\* ------------------------------------------------------------------- options
\* What the crossings between the corners of the line b are.
Crossings(G, e, b, n, opt) ==
  LET path == e.path
      m == Len(b.pts)
      broken == n < Len(path)
      pas(i) == IF i = m THEN n ELSE Passed(path, n, b.refs[i])
      area(j) == opt = 2 \/ G.n[path[j]].a # G.n[path[j + 1]].a
      Item(i, j) ==
        LET S == Portals(G, path[j], path[j + 1])
            A == b.pts[i]
            B == b.pts[i + 1]
        IN [x |-> TRUE, a |-> A, b |-> B, P |-> S, ref |-> path[j + 1], fl |-> 0,
            \* the portal lies on the line or at one of its ends
            may |-> \E P \in S : \/ P[1] = P[2] \/ On(A, P[1], P[2]) \/ On(B, P[1], P[2]) \/ (Side(A, B, P[1]) = 0 /\ Side(A, B, P[2]) = 0)
                                 \/ (Side(P[1], P[2], A) = 0 /\ Side(P[1], P[2], B) = 0)]
      RECURSIVE Leg(_, _)
      Leg(i, j) == IF j >= (IF i = m - 1 THEN n ELSE pas(i + 1)) THEN <<>>
                   ELSE (IF opt # 0 /\ area(j) THEN <<Item(i, j)>> ELSE <<>>) \o Leg(i, j + 1)
      RECURSIVE All(_)
      All(i) == <<[x |-> FALSE, p |-> b.pts[i], ref |-> b.refs[i], fl |-> b.fl[i], may |-> FALSE]>>
                \o (IF i = m THEN <<>> ELSE Leg(i, WMax(pas(i), 1)) \o All(i + 1))
  IN All(1)

Fits(it, p) ==
  IF it.x THEN (it.may \/ On(p, it.a, it.b)) /\ \E P \in it.P : On(p, P[1], P[2]) /\ OnHeight(p, P[1], P[2])
  ELSE p = it.p

\* the points of o are the items E, in order, coinciding ones reported once
Matches(E, o) ==
  LET m == Len(o.pts)
      done(j, it) == j = 0 \/ (o.refs[j] = it.ref /\ o.fl[j] = it.fl)
      RECURSIVE M(_, _, _)
      \* items up to i and points up to j are accounted for, the last item is it
      M(i, j, it) ==
        IF i = Len(E) THEN j = m /\ done(j, it)
        ELSE LET c == E[i + 1] IN
             \/ j < m /\ done(j, it) /\ Fits(c, o.pts[j + 1]) /\ M(i + 1, j + 1, c)
             \/ j > 0 /\ (Fits(c, o.pts[j]) \/ (~c.x /\ Near3(c.p, o.pts[j]))) /\ M(i + 1, j, c)
             \/ c.may /\ M(i + 1, j, it)
  IN M(0, 0, <<>>)

\* the leading part of a result
Leading(o, c) ==
  LET k == WMin(c.cap, o.n) IN
  /\ Chk("writes in its space", c.clean /\ c.st = "ok" /\ ~c.dup /\ ~c.inv /\ ~c.oon)
  /\ ChkV("says it is too small", IF c.cap > o.n THEN ~c.short ELSE c.cap < o.n => c.short, <<c.cap, o.n, c.short>>)
  /\ ChkV("leading part", c.n = k /\ \A i \in 1..k : c.pts[i] = o.pts[i], <<c.pts, o.pts>>)
  /\ ChkV("leading flags", c.nofl \/ \A i \in 1..(IF c.short THEN k - 1 ELSE k) : c.fl[i] = o.fl[i], <<c.fl, o.fl>>)
  /\ ChkV("leading references", c.noref \/ \A i \in 1..(IF c.short THEN k - 1 ELSE k) : c.refs[i] = o.refs[i], <<c.refs, o.refs>>)
  /\ Chk("leading part partial", c.cap > o.n => (c.part <=> o.part))

Straight(G, e) ==
  LET bad == ~Here(G, e.path[1]) \/ ~Here(G, e.path[Len(e.path)])
      n == Whole(G, e.path)
  IN
  IF bad
  THEN Chk("refused", e.base.st = "failed" /\ e.base.inv /\ e.base.clean)
  ELSE /\ (IF Aspect = "C17" THEN TRUE ELSE Base(G, e, e.base, n))
       /\ (Has(e, "all") =>
             LET o == e.all
                 E == Crossings(G, e, e.base, n, o.opt)
             IN /\ Chk("options: success", o.st = "ok" /\ ~o.dup /\ o.clean /\ ~o.short /\ (o.part <=> e.base.part))
                /\ ChkV("crossings", n < Len(e.path) \/ Matches(E, o), <<e.path, e.base.pts, o.pts, o.refs, o.fl>>)
                /\ Leading(o, e.short))

\* ---------------------------------------------------------------------- rays
Ray(G, e) ==
  LET f == e.full
      A == Allowed(G, e.inc, e.exc)
      n == Len(f.path)
      last == G.n[f.path[n]].v
      k == f.edge + 1
      P == <<f.p[1], 0, f.p[2]>>
      a == last[k]
      b == last[VNext(last, k)]
      graze == Corner(G, A, f.path[n], P) \/ (f.nrm = <<0, 0, 0>> /\ Near(P, <<e.ep[1], 0, e.ep[3]>>))
      RECURSIVE Sum(_)
      Sum(i) == IF i = 0 THEN 0 ELSE G.n[f.path[i]].w + Sum(i - 1)
      Same(o) ==
        LET c == WMin(o.cap, n) IN
        /\ ChkV("again", o.st = "ok" /\ ~o.inv /\ o.clean /\ o.end = f.end /\ o.t = f.t /\ o.nrm = f.nrm
                        /\ (o.two \/ ((n > 0 => o.edge = f.edge) /\ o.cost = f.cost)), <<f, o>>)
        /\ ChkV("leading part", o.n = c /\ (o.short <=> o.cap < n) /\ \A i \in 1..c : o.path[i] = f.path[i], <<f, o>>)
  IN
  /\ Chk("success", f.st = "ok" /\ ~f.inv /\ ~f.oon /\ ~f.part /\ ~f.short /\ f.clean /\ f.n = n)
  /\ IF n = 0 THEN ChkV("starts", ~StrictlyIn(e.sp, G.n[e.from].v) /\ ~f.end /\ f.t = 0, <<e.sp, G.n[e.from].v>>)
     ELSE
     /\ ChkV("path", /\ f.path[1] = e.from
                     /\ Cardinality(Range(f.path)) = n
                     /\ \A i \in 1..(n - 1) : \E c \in Ground(G, A, f.path[i]) : c[2] = f.path[i + 1] /\ Passes(e.sp, e.ep, c),
             <<e, f.path>>)
     /\ IF f.end THEN ChkV("reached", In(e.ep, last), <<e.ep, last>>)
        ELSE
        /\ Chk("part of the line", 0 <= f.t /\ f.t <= 1000000)
        /\ ChkV("on an edge", k \in 1..Len(last) /\ On(P, a, b), <<P, k, last>>)
        /\ ChkV("wall", graze \/ Stops(G, A, f.path[n], P), <<e, P>>)
        /\ ChkV("normal", \/ f.t = 0
                          \/ graze /\ f.nrm = <<0, 0, 0>>
                          \/ LET nx == f.nrm[1] nz == f.nrm[3] dx == b[1] - a[1] dz == b[3] - a[3] IN
                             /\ f.nrm[2] = 0
                             /\ WAbs((nx * dx) + (nz * dz)) <= WAbs(dx) + WAbs(dz)
                             /\ (nx * dz) - (nz * dx) > 0
                             /\ WAbs((nx * nx) + (nz * nz) - 1000000) < 3000, <<f.nrm, a, b>>)
  /\ ChkV("cost", e.costs => f.cost = Sum(n), <<f.cost, Sum(n)>>)
  /\ \A i \in 1..Len(e.more) : Same(e.more[i])

TSStep(st, e) ==
  CASE e.ev = "Graph" -> {[st EXCEPT !.G = Graph(e)]}
    [] e.ev = "Straight" -> If(Straight(st.G, e), st)
    [] e.ev = "Ray" -> If(Ray(st.G, e), st)
    [] e.ev = "Add" -> If(e.ok, st)
    [] e.ev = "Remove" -> If(e.ok, st)
    [] e.ev = "SetFlags" -> {st}
    [] OTHER -> {}
=============================================================================
