---------------------------- MODULE Nearest_trace ----------------------------
(* C10: nearest polygons and closest points, against the surface.            *)
EXTENDS TraceKit, Nearest, Bitwise

Pol(e, t, p) ==
  LET V == [j \in 1..Len(p.v) |-> t.verts[p.v[j]]]
      X == {16 * V[j][1] : j \in 1..Len(V)}  Y == {e.ch * V[j][2] : j \in 1..Len(V)}  Z == {16 * V[j][3] : j \in 1..Len(V)}
      Y2 == Y \cup {p.tris[i][j][2] : i \in 1..Len(p.tris), j \in 1..3}
      mn(S) == CHOOSE a \in S : \A b \in S : a <= b
      mx(S) == CHOOSE a \in S : \A b \in S : a >= b
  IN [v |-> [j \in 1..Len(V) |-> <<16 * V[j][1], 16 * V[j][3]>>],
      lo |-> <<8 * mn(X), mn(Y), 8 * mn(Z)>>, hi |-> <<8 * mx(X), mx(Y), 8 * mx(Z)>>,
      lo2 |-> mn(Y2), hi2 |-> mx(Y2),
      y |-> [j \in 1..Len(V) |-> e.ch * V[j][2]],
      tris |-> p.tris, f |-> p.f, f0 |-> p.f]

TSStart(e) ==
  [T |-> [k \in 1..Len(e.tiles) |-> LET t == e.tiles[k] IN [x |-> t.x, z |-> t.y, ymin |-> t.ymin, ymax |-> t.ymax,
                                                           p |-> [i \in 1..Len(t.polys) |-> Pol(e, t, t.polys[i])]]],
   N |-> e.N, climb |-> e.climb, here |-> {}]

Permitted(f, inc, exc) == (f & inc) # 0 /\ (f & exc) = 0

Box(e) == [lo |-> <<8 * e.c[1] - e.ext[1], e.c[2] - e.ext[2], 8 * e.c[3] - e.ext[3]>>,
           hi |-> <<8 * e.c[1] + e.ext[1], e.c[2] + e.ext[2], 8 * e.c[3] + e.ext[3]>>]

All(st, e) == UNION {{<<k, i>> : i \in {i \in 1..Len(st.T[k].p) : Permitted(st.T[k].p[i].f, e.inc, e.exc)}} : k \in st.here}

Near3(a, b, tol) == \A i \in 1..3 : Abs(a[i] - b[i]) <= tol

Nearest1(st, e) ==
  LET bx == Box(e)
      G == All(st, e)
      pol(g) == st.T[g[1]].p[g[2]]
      must == {g \in G : Overlap(pol(g).lo, pol(g).hi, bx.lo, bx.hi, -1)}
  IN
  /\ Chk("status", e.st = "ok")
  /\ IF e.ref = <<0, 0>> THEN ChkV("missed", must = {}, must)
     ELSE
       /\ ChkV("forbidden or absent polygon", e.ref \in G, e.ref)
       /\ LET p == pol(e.ref)  t == st.T[e.ref[1]]
              \* the box is clamped to the tile
              clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
              side(q) == <<clamp(q[1], 128 * t.x * st.N, 128 * (t.x + 1) * st.N), clamp(q[2], t.ymin, t.ymax),
                           clamp(q[3], 128 * t.z * st.N, 128 * (t.z + 1) * st.N)>>
          IN ChkV("polygon outside the box", Overlap(<<p.lo[1], p.lo2, p.lo[3]>>, <<p.hi[1], p.hi2, p.hi[3]>>, side(bx.lo), side(bx.hi), 3 * 128), e.ref)
       /\ LET R == Rank(pol(e.ref), e.c, st.climb)
              M == {r \in R : Near3(r.c, e.pt, 10)} IN
          /\ ChkV("point", M # {}, <<e.ref, R>>)
          /\ LET best == CHOOSE r \in M : \A q \in M : r.d <= q.d IN
             \A g \in must \ {e.ref} :
               ChkV("nearer polygon missed",
                    \E q \in Rank(pol(g), e.c, st.climb) : best.d <= q.d + Tol(e.c, q.c) + Tol(e.c, best.c), <<g, best, Rank(pol(g), e.c, st.climb)>>)

Closest1(st, e) ==
  LET p == st.T[e.p[1]].p[e.p[2]]  R == Rank(p, e.c, st.climb) IN
  /\ Chk("status", e.st = "ok")
  /\ ChkV("closest", \E r \in R : Near3(r.c, e.pt, 10) /\ r.over = e.over, R)

\* the boundary variant: the position itself when above or below, else the
\* nearest boundary point at the height of the edge
Boundary1(st, e) ==
  LET p == st.T[e.p[1]].p[e.p[2]]  xx == <<e.c[1], e.c[3]>> IN
  /\ Chk("status", e.st = "ok")
  /\ ChkV("boundary",
          \/ InsideClosed(p.v, xx) /\ Near3(e.pt, <<8 * e.c[1], e.c[2], 8 * e.c[3]>>, 4)
          \/ ~InsideStrict(p.v, xx) /\ \E c \in EdgePoints(p, xx) : Near3(e.pt, c, 8), p)

TSStep(st, e) ==
  CASE e.ev = "Add" -> If(Chk("add", e.ok), [st EXCEPT !.here = @ \cup {e.k}])
    [] e.ev = "Remove" -> If(Chk("remove", e.ok), [st EXCEPT !.here = @ \ {e.k},
                                                       !.T[e.k].p = [i \in DOMAIN @ |-> [@[i] EXCEPT !.f = st.T[e.k].p[i].f0]]])
    [] e.ev = "SetFlags" -> {[st EXCEPT !.T[e.p[1]].p[e.p[2]].f = e.f]}
    [] e.ev = "Nearest" -> If(Nearest1(st, e), st)
    [] e.ev = "Closest" -> If(Closest1(st, e), st)
    [] e.ev = "Boundary" -> If(Boundary1(st, e), st)
    [] OTHER -> {}
=============================================================================
