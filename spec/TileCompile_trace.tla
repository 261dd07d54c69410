------------------------- MODULE TileCompile_trace --------------------------
(* C07: recorded compilations against TileCompile.                           *)
EXTENDS TraceKit, TileCompile

TSStart(e) == [n |-> 0]

Header(src, t) ==
  /\ Chk("place", t.x = src.x /\ t.y = src.y /\ t.l = src.l /\ t.user = src.user)
  /\ Chk("bounds", t.bmin = src.bmin /\ t.bmax = src.bmax)
  /\ Chk("agent", t.h = src.h)
  /\ Chk("counts", /\ t.hn[1] = t.np /\ t.hn[2] = t.nv /\ t.hn[3] = Len(t.off)
                   /\ t.hn[4] = Len(src.polys) /\ t.hn[5] = Len(t.dm) /\ t.hn[6] = Len(t.bvt))

Surface(src, t) ==
  /\ ChkV("polygon count", t.np = Len(src.polys) + Len(t.off), t.np)
  /\ \A i \in 1..Len(src.polys) :
       LET p == t.polys[i] IN
       ChkV("polygon", [v |-> p.v, n |-> p.n, f |-> p.f, a |-> p.a, t |-> p.t] = Poly(src.polys[i]), <<i, p, Poly(src.polys[i])>>)
  /\ ChkV("vertex count", t.nv = src.nv + 2 * Len(t.off), t.nv)
  /\ \A k \in 1..Len(src.verts) : ChkV("vertex", t.verts[k] = VertAt(src, src.verts[k]), <<t.verts[k], VertAt(src, src.verts[k])>>)
  /\ Chk("one detail mesh a polygon", Len(t.dm) = Len(src.polys))
  /\ \A i \in 1..Len(src.polys) :
       LET m == t.dm[i]  w == Detail(src, i) IN
       /\ ChkV("detail vertices", m[2] = Len(w.dv) /\ \A k \in 1..Len(w.dv) : t.dv[m[1] + k] = w.dv[k], <<i, m>>)
       /\ ChkV("detail triangles", m[4] = Len(w.dt) /\ \A k \in 1..Len(w.dt) : t.dt[m[3] + k] = w.dt[k], <<i, m>>)

OffMesh(src, t) ==
  LET st == Stored(src) IN
  /\ ChkV("connections that start here", Len(t.off) = Len(st), <<Len(t.off), Len(st)>>)
  /\ \A k \in 1..Len(st) :
       LET o == t.off[k]  w == st[k]  n == Len(src.polys) + k  p == t.polys[n] IN
       /\ ChkV("connection", /\ o.a = w.a /\ o.b = w.b /\ o.r = w.r /\ o.bi = w.bi /\ o.u = w.u
                             /\ o.side = Side(src, w.b) /\ o.poly = n - 1, <<o, w>>)
       /\ ChkV("polygon of a connection", /\ p.t = 1 /\ p.f = w.f /\ p.a = w.ar
                                          /\ p.v = <<src.nv + 2 * k - 2, src.nv + 2 * k - 1>>, <<p, w>>)
       /\ p.linked \/ ChkV("ends of a connection", o.va = w.a /\ o.vb = w.b, <<o, w>>)

\* the search tree: in preorder, every polygon in exactly one leaf whose box,
\* and those of all nodes above it, contain the polygon
Tree(src, t) ==
  LET n == Len(src.polys)
      N == IF n = 1 THEN 1 ELSE -(t.bvt[1][7])  \* nodes in use
      leaves == {k \in 1..N : t.bvt[k][7] >= 0}
      Above(k) == {j \in 1..k : t.bvt[j][7] < 0 /\ k < j - t.bvt[j][7]} \cup {k}
  IN
  IF ~src.bv THEN Chk("no tree asked for", Len(t.bvt) = 0)
  ELSE /\ Chk("tree size", Len(t.bvt) >= 2 * n - 1 /\ N = 2 * n - 1)
       /\ Chk("every polygon in one leaf", {t.bvt[k][7] : k \in leaves} = 0..(n - 1) /\ Cardinality(leaves) = n)
       /\ \A k \in leaves :
            LET P == Points(src, t.bvt[k][7] + 1) IN
            \A j \in Above(k) : \A p \in P :
              ChkV("box", LET b == t.bvt[j]  x == p[1] - src.bmin[1]  y == p[2] - src.bmin[2]  z == p[3] - src.bmin[3] IN
                     /\ 4 * b[1] <= Max2(0, x) /\ x < 4 * b[4] + 4
                     /\ 4 * b[3] <= Max2(0, z) /\ z < 4 * b[6] + 4
                     \* heights are in cells of the ground: den is eight times cs/ch
                     /\ 4 * b[2] * src.den <= Max2(0, 8 * y) /\ 8 * y < (4 * b[5] + 4) * src.den,
                   <<k, j, p>>)

Compile(e) ==
  /\ Chk("compilation succeeds", e.ok)
  /\ Header(e.src, e.t)
  /\ Surface(e.src, e.t)
  /\ OffMesh(e.src, e.t)
  /\ Tree(e.src, e.t)

TSStep(st, e) ==
  CASE e.ev = "Compile" -> If(Compile(e), [n |-> st.n + 1])
    [] e.ev = "Refuse" -> If(ChkV("source outside the limits accepted", ~e.ok /\ ~e.data, e.what), st)
    [] OTHER -> {}
=============================================================================
