---------------------------- MODULE Fields_trace ------------------------------
(* C24 - C27: filters, compact heightfields, erosion and marking.            *)
EXTENDS TraceKit, FieldOps

TSStart(e) ==
  IF Has(e, "cols") THEN [w |-> e.w, h |-> e.h, cols |-> e.cols, comp |-> <<>>, vols |-> <<>>]
  ELSE [w |-> 0, h |-> 0, cols |-> <<>>, comp |-> <<>>, vols |-> <<>>]

\* areas of the solid spans as observed
SetAreas(cols, show) ==
  [i \in DOMAIN cols |-> [j \in DOMAIN cols[i] |->
    LET K == {k \in DOMAIN show[i] : show[i][k][1] = cols[i][j][2]} IN
    <<cols[i][j][1], cols[i][j][2], IF K = {} THEN 0 ELSE show[i][CHOOSE k \in K : TRUE][3]>>]]

Shows(asp, name, show, want) ==
  LET B == {i \in DOMAIN want : show[i] # Visible(want[i])} IN
  JudgeV(asp, name, B = {}, IF B = {} THEN 0 ELSE LET i == CHOOSE i \in B : TRUE IN <<i, show[i], Visible(want[i])>>)

Filter(st, e) ==
  LET want == CASE e.kind = "none" -> st.cols
                [] e.kind = "low" -> Low(st.cols, e.climb)
                [] e.kind = "ledge" -> Ledges(st.cols, st.w, st.h, e.height, e.climb)
                [] e.kind = "ceiling" -> LowCeiling(st.cols, e.height)
  IN If(Shows({"C24"}, e.kind, e.show, want), [st EXCEPT !.cols = SetAreas(@, e.show)])

\* cells: per cell the open spaces <<floor, clearance, area, c0, c1, c2, c3>>
Compact(st, e) ==
  LET w == st.w  h == st.h  N == DOMAIN st.cols
      V == [i \in N |-> Visible(st.cols[i])]
      C(i) == [k \in 1..Len(e.cells[i]) |-> SubSeq(e.cells[i][k], 1, 3)]
      Con(i, k, d) == e.cells[i][k][4 + d]
      RECURSIVE Sum(_)
      Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) + Len(e.cells[i])
      Ok(i, k, d) ==
        LET n == Nbr(i, d, w, h)
            F == IF n = 0 THEN {} ELSE Connects(V[i][k], V[n], e.height, e.climb)
            c == Con(i, k, d)
        IN /\ JudgeV({"C25"}, "connected where the agent fits", IF c = 63 THEN \A f \in F : f > 63 ELSE c + 1 \in F, <<i, k, d, c, F>>)
           /\ JudgeV({"C25"}, "symmetric", (c # 63 /\ k <= 63 /\ Cardinality(F) = 1 /\ e.climb <= e.height)
                => e.cells[n][c + 1][4 + ((d + 2) % 4)] = k - 1, <<i, k, d>>)
  IN If(/\ \A i \in N : JudgeV({"C25"}, "open spaces", C(i) = V[i], <<i, C(i), V[i]>>)
        /\ JudgeV({"C25"}, "header", e.w = w /\ e.h = h /\ e.n = Sum(w * h) /\ e.height = e.wh /\ e.climb = e.wc /\ e.same, e.n)
        /\ JudgeV({"C25"}, "order", \A i \in N : Len(e.cells[i]) > 0 => e.index[i] = Sum(i - 1), e.index)
        /\ JudgeV({"C25"}, "too many layers reported", e.errors = (\E i \in N, d \in 0..3 :
               Nbr(i, d, w, h) # 0 /\ \E k \in DOMAIN V[i] : \E f \in Connects(V[i][k], V[Nbr(i, d, w, h)], e.height, e.climb) :
                 f > 63 /\ \A g \in Connects(V[i][k], V[Nbr(i, d, w, h)], e.height, e.climb) : g >= f), e.errors)
        /\ \A i \in N : \A k \in 1..Len(e.cells[i]) : Len(V[i]) >= k => \A d \in 0..3 : Ok(i, k, d),
        [st EXCEPT !.comp = e.cells])

AreaSeqs(c) == [i \in DOMAIN c |-> [k \in DOMAIN c[i] |-> c[i][k][3]]]
WithAreas(c, a) == [i \in DOMAIN c |-> [k \in DOMAIN c[i] |-> [c[i][k] EXCEPT ![3] = a[i][k]]]]

Erode(st, e) ==
  LET c == st.comp
      S == UNION {{<<i, k>> : k \in DOMAIN c[i]} : i \in DOMAIN c}
      con(u, d) == IF u = None THEN None ELSE LET x == c[u[1]][u[2]][4 + d] IN IF x = 63 THEN None ELSE <<Nbr(u[1], d, st.w, st.h), x + 1>>
      area(u) == c[u[1]][u[2]][3]
      \* the sets of spaces within distance 0, 1, .., n
      RECURSIVE Levels(_)
      Levels(n) ==
        IF n = 0 THEN <<{u \in S : Border(con, area, u)}>>
        ELSE LET L == Levels(n - 1)
                 A == L[n]
                 B == IF n >= 2 THEN L[n - 1] ELSE {}
                 D == IF n >= 3 THEN L[n - 2] ELSE {}
             IN Append(L, A \cup {u \in S \ A : (\E d \in 0..3 : con(u, d) \in B) \/ Diagonals(con, u) \cap D # {}})
      gone == Levels(2 * e.radius - 1)[2 * e.radius]
      Bad == {u \in S : e.areas[u[1]][u[2]] # (IF u \in gone THEN 0 ELSE area(u))}
      \* floors that wind around a corner of the grid (or connections in one direction only)
      \* have two different spaces in the same diagonal direction: distances along
      \* these are not exact
      Plain == \A u \in S : \A d \in 0..3 :
                 LET v == con(u, d)  q == (d + 1) % 4  v2 == con(u, q) IN
                 /\ v # None => con(v, (d + 2) % 4) = u
                 /\ (v # None /\ v2 # None) => LET a == con(v, q)  b == con(v2, d) IN a = b \/ a = None \/ b = None
      B0 == {u \in S : Border(con, area, u)}
      RECURSIVE Along(_, _, _)
      Along(u, d, n) == u # None /\ (u \in B0 \/ (n > 0 /\ Along(con(u, d), d, n - 1)))
      Rough == {u \in S : LET b == e.areas[u[1]][u[2]] IN
                 \/ b \notin {0, area(u)}
                 \/ b = 0 /\ u \notin gone
                 \/ b # 0 /\ \E d \in 0..3 : Along(u, d, e.radius - 1)}
  IN If(/\ JudgeV({"C26"}, "eroded", IF Bad = {} THEN TRUE ELSE IF Plain THEN FALSE ELSE Rough = {}, <<Bad, Rough>>)
        /\ JudgeV({"C26"}, "nothing else changes", e.same, 0),
        [st EXCEPT !.comp = WithAreas(@, e.areas)])

\* a level field: all that is left is the middle
BigErode(st, e) ==
  LET r == e.radius IN
  If(\A z \in 0..(e.h - 1) :
       LET want == IF z >= r /\ z <= e.h - 1 - r /\ 2 * r < e.w THEN <<e.w - 2 * r, r, e.w - 1 - r>> ELSE <<0, -1, -1>>
       IN JudgeV({"C26"}, "eroded", e.left[z + 1] = want, <<z, e.left[z + 1], want>>), st)

\* p in quarters of a cell, hmin and hmax in quarters of a row
Mark(st, e) ==
  LET c == st.comp
      In(i) == Inside(e.p, 4 * ((i - 1) % st.w) + 2, 4 * ((i - 1) \div st.w) + 2)
      Out(i) == Outside(e.p, 4 * ((i - 1) % st.w) + 2, 4 * ((i - 1) \div st.w) + 2)
      Ok(i, k) ==
        LET a == c[i][k][3]  y == 4 * c[i][k][1]  b == e.areas[i][k] IN
        /\ JudgeV({"C27"}, "marked inside", (a # 0 /\ In(i) /\ e.hmin <= y /\ y <= e.hmax) => b = e.area, <<i, k, a, b>>)
        /\ JudgeV({"C27"}, "unchanged outside", (a = 0 \/ Out(i) \/ y <= e.hmin - 4 \/ y > e.hmax) => b = a, <<i, k, a, b>>)
        /\ JudgeV({"C27"}, "marked or unchanged", b \in {a, e.area}, <<i, k, a, b>>)
  IN If(/\ \A i \in DOMAIN c : \A k \in DOMAIN c[i] : Ok(i, k)
        /\ JudgeV({"C27"}, "nothing else changes", e.same, 0),
        [st EXCEPT !.comp = WithAreas(@, e.areas)])

\* volumes of an input geometry: vols is the whole list after the operation
Count(q, v) == Cardinality({i \in DOMAIN q : q[i] = v})
SameBag(q, t) == Len(q) = Len(t) /\ \A i \in DOMAIN q : Count(q, q[i]) = Count(t, q[i])
Volumes(st, e) ==
  LET want == CASE e.op = "add" -> IF Len(st.vols) >= 256 \/ Len(e.v.p) > 36 THEN st.vols ELSE Append(st.vols, e.v)
                [] e.op = "del" -> SubSeq(st.vols, 1, e.i - 1) \o SubSeq(st.vols, e.i + 1, Len(st.vols))
                [] e.op = "load" -> <<>>
  IN If(JudgeV({"C27"}, "volumes", SameBag(e.vols, want), <<e.op, e.vols>>), [st EXCEPT !.vols = e.vols])

TSStep(st, e) ==
  CASE e.ev = "Filter" -> Filter(st, e)
    [] e.ev = "Compact" -> Compact(st, e)
    [] e.ev = "Erode" -> Erode(st, e)
    [] e.ev = "BigErode" -> BigErode(st, e)
    [] e.ev = "Mark" -> Mark(st, e)
    [] e.ev = "Volumes" -> Volumes(st, e)
    [] OTHER -> {}
==============================================================================
