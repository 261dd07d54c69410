---------------------------- MODULE OffMesh_trace ----------------------------
(* C08: which links off-mesh connections have, from the set of present tiles *)
(* and the geometry.  Every tile of a world is flat.  Coordinates of         *)
(* connections are quarters of cells (cell heights along y); tile vertices   *)
(* are whole ones.                                                           *)
EXTENDS TraceKit

Dx == <<1, 1, 0, -1, -1, -1, 0, 1>>
Dy == <<0, 1, 1, 1, 0, -1, -1, -1>>

P(t, v) == <<4 * t.verts[v][1], 4 * t.verts[v][3]>>
Corners(t, p) == [j \in 1..Len(t.polys[p].v) |-> P(t, t.polys[p].v[j])]
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Nxt(q, j) == q[(j % Len(q)) + 1]
Inside(q, x) == \/ \A j \in 1..Len(q) : Cross(q[j], Nxt(q, j), x) >= 0
                \/ \A j \in 1..Len(q) : Cross(q[j], Nxt(q, j), x) <= 0
\* 16 times the squared distance of x from segment ab, rounded down, and
\* whether that is exact
SegDist(a, b, x) ==
  LET dx == b[1] - a[1]  dy == b[2] - a[2]  L == dx * dx + dy * dy
      t == (x[1] - a[1]) * dx + (x[2] - a[2]) * dy
      Sq(u) == (x[1] - u[1]) * (x[1] - u[1]) + (x[2] - u[2]) * (x[2] - u[2]) IN
  IF t <= 0 THEN <<16 * Sq(a), TRUE>>
  ELSE IF t >= L THEN <<16 * Sq(b), TRUE>>
  ELSE LET c == Abs(Cross(a, b, x)) IN
       IF dx = 0 \/ dy = 0 THEN LET d == c \div (Abs(dx) + Abs(dy)) IN <<16 * d * d, TRUE>>
       ELSE IF c > 8000 THEN <<(16 * ((c \div Max2(Abs(dx), Abs(dy))) * (c \div Max2(Abs(dx), Abs(dy))))) \div 2, FALSE>>
       ELSE <<(16 * c * c) \div L, FALSE>>
Dist(q, x) ==
  IF Inside(q, x) THEN <<0, TRUE>>
  ELSE LET D == {SegDist(q[j], Nxt(q, j), x) : j \in 1..Len(q)}
           m == CHOOSE d \in D : \A e \in D : d[1] < e[1] \/ (d[1] = e[1] /\ (e[2] => d[2])) \/ d = e
       IN m

Height(t) == 4 * t.verts[1][2]

\* attachment of a point to tile t: which polygons it may be attached to, and
\* whether it must be attached or must not
Attach(t, pt, rad, climb10, den) ==
  LET x == <<pt[1], pt[3]>>
      dy == Abs(pt[2] - Height(t))
      near == 1..Len(t.polys)
      D == [p \in near |-> Dist(Corners(t, p), x)]
      best == CHOOSE m \in Range(D) : \A d \in Range(D) : m[1] <= d[1] /\ (d[1] = m[1] => (d[2] => m[2]))
      may == {p \in near : IF D[p][2] /\ best[2] THEN D[p][1] = best[1] ELSE D[p][1] <= best[1] + 2}
      R == 16 * rad * rad
  IN IF 10 * dy > 4 * climb10 + 10 * den \/ best[1] > R + 2 \/ (best[2] /\ best[1] > R)
     THEN [may |-> {}, must |-> FALSE]
     ELSE [may |-> may, d |-> best[1], must |-> 10 * dy < 4 * climb10 /\ (best[1] < R - 2 \/ (best[2] /\ best[1] <= R))]

\* where the end of connection c, stored in tile k, is looked for
EndTiles(T, N, k, c) ==
  LET lo1 == 4 * T[k].x * N  hi1 == lo1 + 4 * N  lo3 == 4 * T[k].y * N  hi3 == lo3 + 4 * N
      xp == c.b[1] >= hi1  xm == c.b[1] < lo1  zp == c.b[3] >= hi3  zm == c.b[3] < lo3
      dx == IF xp THEN 1 ELSE IF xm THEN -1 ELSE 0
      dz == IF zp THEN 1 ELSE IF zm THEN -1 ELSE 0
  IN {b \in 1..Len(T) : T[b].x = T[k].x + dx /\ T[b].y = T[k].y + dz}

\* connection c is stored in tile k
StoredIn(T, N, k, c, climb10) ==
  /\ c.a[1] >= 4 * T[k].x * N /\ c.a[1] < 4 * (T[k].x + 1) * N
  /\ c.a[3] >= 4 * T[k].y * N /\ c.a[3] < 4 * (T[k].y + 1) * N
  /\ 10 * Abs(c.a[2] - Height(T[k])) <= 4 * climb10

TSStart(e) ==
  LET T == e.tiles  n == Len(T)  m == Len(e.cons) IN
  [T |-> T, here |-> {}, cons |-> e.cons,
   stored |-> [k \in 1..n |-> {c \in 1..m : StoredIn(T, e.N, k, e.cons[c], e.climb10)}],
   start |-> [kc \in (1..n) \X (1..m) |->
                IF StoredIn(T, e.N, kc[1], e.cons[kc[2]], e.climb10)
                THEN Attach(T[kc[1]], e.cons[kc[2]].a, e.cons[kc[2]].r, e.climb10, e.den)
                ELSE [may |-> {}, must |-> FALSE]],
   ends |-> [kc \in (1..n) \X (1..m) |-> EndTiles(T, e.N, kc[1], e.cons[kc[2]])],
   end |-> [bc \in (1..n) \X (1..m) |-> Attach(T[bc[1]], e.cons[bc[2]].b, e.cons[bc[2]].r, e.climb10, e.den)]]

\* links: all <<k, p, e, k2, q>> from or to a connection's polygon
Con(st, L, k, c, op) ==
  LET con == st.cons[c]
      S == {x \in L : x[1] = k /\ x[2] = op /\ x[3] = 0}
      E == {x \in L : x[1] = k /\ x[2] = op /\ x[3] = 1}
      other == {x \in L : x[1] = k /\ x[2] = op /\ x[3] \notin {0, 1}}
      to == {x \in L : x[4] = k /\ x[5] = op}
      at == st.start[<<k, c>>]
  IN
  /\ ChkV("odd link", other = {}, <<k, c, other>>)
  /\ ChkV("start", /\ Cardinality(S) <= 1
                   /\ at.must => S # {}
                   /\ \A x \in S : x[4] = k /\ x[5] \in at.may, <<k, c, S, at>>)
  /\ S = {} => ChkV("not attached at its start", E = {} /\ to = {}, <<k, c>>)
  /\ S # {} =>
       /\ \A b \in st.here :
            LET Eb == {x \in E : x[4] = b}  en == st.end[<<b, c>>] IN
            IF b \notin st.ends[<<k, c>>] THEN ChkV("end in the wrong tile", Eb = {}, <<k, c, b>>)
            ELSE ChkV("end", /\ Cardinality(Eb) <= 1
                             /\ en.must => Eb # {}
                             /\ \A x \in Eb : x[5] \in en.may, <<k, c, Eb, en>>)
       /\ ChkV("end in an absent tile", \A x \in E : x[4] \in st.here, <<k, c, E>>)
       /\ LET want == {<<x[4], x[5]>> : x \in S} \cup (IF con.bi THEN {<<x[4], x[5]>> : x \in E} ELSE {}) IN
          ChkV("entries", {<<x[1], x[2]>> : x \in to} = want, <<k, c, to, want>>)

Off(st, e) ==
  LET L == {<<x[1], x[2], x[3], x[4], x[5]>> : x \in Range(e.ls)} IN
  /\ ChkV("link to nothing", \A x \in L : x[4] # 0, L)
  /\ \A k \in st.here :
       LET os == {<<o[2], o[3]>> : o \in {o \in Range(e.offs) : o[1] = k}} IN
       /\ ChkV("stored connections", {o[1] : o \in os} = st.stored[k] /\ Cardinality(os) = Cardinality(st.stored[k]), <<k, os, st.stored[k]>>)
       /\ \A o \in os : Con(st, L, k, o[1], o[2])
  /\ \A i \in 1..Len(e.vs) :
       LET v == e.vs[i]  k == v.k  c == v.c  at == st.start[<<k, c>>] IN
       /\ (at.must /\ at.d = 0) => ChkV("start point", v.a = <<st.cons[c].a[1], Height(st.T[k]), st.cons[c].a[3]>>, v)
       /\ LET B == {b \in st.ends[<<k, c>>] : st.end[<<b, c>>].may # {}} IN
          Cardinality(B) = 1 /\ at.must =>
            LET b == CHOOSE b \in B : TRUE  en == st.end[<<b, c>>] IN
            (en.must /\ en.d = 0 /\ b \in st.here) =>
              ChkV("end point", v.b = <<st.cons[c].b[1], Height(st.T[b]), st.cons[c].b[3]>>, v)

TSStep(st, e) ==
  CASE e.ev = "Add" -> If(Chk("add", e.ok), [st EXCEPT !.here = @ \cup {e.k}])
    [] e.ev = "Remove" -> If(Chk("remove", e.ok), [st EXCEPT !.here = @ \ {e.k}])
    [] e.ev = "Off" -> If(Off(st, e), st)
    [] OTHER -> {}
=============================================================================
