------------------------------ MODULE Detail_trace ------------------------------
(* C31: recorded detail meshes.  Horizontal positions of detail vertices are  *)
(* recorded in 64ths of a cell, heights in cells.                             *)
EXTENDS TraceKit, Outline

SC == 64
TSStart(e) == [w |-> e.w, h |-> e.h, cells |-> e.cells, reg |-> <<>>, border |-> 0, polys |-> <<>>, verts |-> <<>>, regs |-> <<>>, nb |-> <<>>]
Regions(f, e) == If(Chk("partitioned", e.ok), [f EXCEPT !.reg = e.reg, !.border = e.border])
Meshed(f, e) == If(Chk("meshed", e.ok), [f EXCEPT !.polys = e.polys, !.verts = e.verts, !.regs = e.regs, !.nb = e.nb])

RECURSIVE RootUp(_, _, _)
RootUp(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m >= n THEN RootUp(n, lo, m) ELSE RootUp(n, m + 1, hi)
\* length of a side, rounded up
Length(a, b) == RootUp((b[1] - a[1]) * (b[1] - a[1]) + (b[3] - a[3]) * (b[3] - a[3]), 0, 4096)
Reach(a, b) == Abs(b[1] - a[1]) + Abs(b[3] - a[3])

\* a point is left of a side beyond any rounding, or right of it
Margin(a, b) == 2 * Reach(a, b) + 8
InTri(t, p) == \A i \in 1..3 : Cross(t[i], Nxt(t, i), p) < -Margin(t[i], Nxt(t, i))
OutTri(t, p) == \E i \in 1..3 : Cross(t[i], Nxt(t, i), p) > Margin(t[i], Nxt(t, i))
OnTri(t, p) == \A i \in 1..3 : Cross(t[i], Nxt(t, i), p) <= 0
InPoly(q, p) == \A i \in DOMAIN q : Cross(q[i], Nxt(q, i), p) < -Margin(q[i], Nxt(q, i))
OutPoly(q, p) == \E i \in DOMAIN q : Cross(q[i], Nxt(q, i), p) > Margin(q[i], Nxt(q, i))
\* on a side of a polygon
OnSideOf(a, b, p) ==
  /\ Abs(Cross(a, b, p)) <= Margin(a, b)
  /\ p[1] >= MinI(a[1], b[1]) - 2 /\ p[1] <= Mx(a[1], b[1]) + 2
  /\ p[3] >= MinI(a[3], b[3]) - 2 /\ p[3] <= Mx(a[3], b[3]) + 2

\* the height of the region at a cell of the mesh, -1 if it is not there
RegHeight(f, r, x, z) ==
  IF x < 0 \/ z < 0 \/ x >= f.w - 2 * f.border \/ z >= f.h - 2 * f.border THEN -1
  ELSE LET i == (x + f.border) + (z + f.border) * f.w + 1
           K == {k \in DOMAIN f.cells[i] : f.reg[i][k] = r}
       IN IF K = {} THEN -1 ELSE f.cells[i][CHOOSE k \in K : \A m \in K : k <= m][1]

FirstLow(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[3] <= b[3])

Detailed(f, e) ==
  LET N == DOMAIN f.polys
      P == [i \in N |-> [j \in DOMAIN f.polys[i] |-> f.verts[f.polys[i][j] + 1]]]             \* in cells
      Q == [i \in N |-> [j \in DOMAIN P[i] |-> <<P[i][j][1] * SC, P[i][j][2], P[i][j][3] * SC>>]] \* in 64ths
      M == e.meshes
      base(i, c) == M[i][c]
      ok1 == /\ Len(M) = Len(f.polys)
             /\ \A i \in N : /\ base(i, 1) = (IF i = 1 THEN 0 ELSE base(i - 1, 1) + base(i - 1, 2))
                             /\ base(i, 3) = (IF i = 1 THEN 0 ELSE base(i - 1, 3) + base(i - 1, 4))
             /\ Len(M) > 0 => Len(e.verts) = base(Len(M), 1) + base(Len(M), 2)
                           /\ Len(e.tris) = base(Len(M), 3) + base(Len(M), 4)
             /\ Len(M) = 0 => e.verts = <<>> /\ e.tris = <<>>
      V(i) == SubSeq(e.verts, base(i, 1) + 1, base(i, 1) + base(i, 2))
      T(i) == SubSeq(e.tris, base(i, 3) + 1, base(i, 3) + base(i, 4))
      Structure(i) ==
        LET n == Len(P[i]) IN
        /\ JudgeV({"C31"}, "limits", base(i, 2) <= 127 /\ base(i, 4) <= 255 /\ base(i, 4) >= 1, M[i])
        /\ JudgeV({"C31"}, "begins with the corners", base(i, 2) >= n /\ \A j \in 1..n : V(i)[j] = Q[i][j], <<Q[i], V(i)>>)
        /\ \A t \in Range(T(i)) : JudgeV({"C31"}, "corners exist", \A k \in 1..3 : t[k] >= 0 /\ t[k] < base(i, 2), t)
      Covers(i) ==
        LET v == V(i)
            q == Q[i]
            tri == [k \in DOMAIN T(i) |-> <<v[T(i)[k][1] + 1], v[T(i)[k][2] + 1], v[T(i)[k][3] + 1]>>]
            loose == SumFn([k \in DOMAIN tri |-> 2 * (Reach(tri[k][1], tri[k][2]) + Reach(tri[k][2], tri[k][3]) + Reach(tri[k][3], tri[k][1]))], DOMAIN tri)
            sum == SumFn([k \in DOMAIN tri |-> Twice(tri[k])], DOMAIN tri)
            x0 == CHOOSE x \in {a[1] : a \in Range(P[i])} : \A b \in Range(P[i]) : x <= b[1]
            x1 == CHOOSE x \in {a[1] : a \in Range(P[i])} : \A b \in Range(P[i]) : x >= b[1]
            z0 == CHOOSE x \in {a[3] : a \in Range(P[i])} : \A b \in Range(P[i]) : x <= b[3]
            z1 == CHOOSE x \in {a[3] : a \in Range(P[i])} : \A b \in Range(P[i]) : x >= b[3]
            \* height of the surface over the triangles at p, relative to y, times twice the area
            Over(t, p, y) == -((t[1][2] - y) * Cross(t[2], t[3], p) + (t[2][2] - y) * Cross(t[3], t[1], p) + (t[3][2] - y) * Cross(t[1], t[2], p))
            d == e.dist * (SC \div 4)                       \* in 64ths
            wide == \A j \in DOMAIN q : \E k \in DOMAIN q : -Cross(q[j], Nxt(q, j), q[k]) >= (2 * d + 2) * Length(q[j], Nxt(q, j))
            \* samples closer to a side than half of the distance, and than its root, are left out
            away == Mx((d + 1) \div 2, RootUp(32 * d, 0, 400)) + 2
            inside(p) == \A j \in DOMAIN q : -Cross(q[j], Nxt(q, j), p) >= away * Length(q[j], Nxt(q, j))
            Sampled(mx, mz) ==
              LET p == <<mx * d, 0, mz * d>>
                  y == RegHeight(f, f.regs[i], (mx * d) \div SC, (mz * d) \div SC)
                  C == {<<p[1] + a, 0, p[3] + b>> : a \in {-8, 8}, b \in {-8, 8}}
                  K == {k \in DOMAIN tri : \A c \in C : OnTri(tri[k], c)}
              IN (inside(p) /\ y # -1) => \A k \in K :
                   LET A == Twice(tri[k])
                       H == {Over(tri[k], c, y) : c \in C}
                       slack == (e.err * A) \div 4 + A \div 100 + 1
                   IN A > 0 => JudgeV({"C31"}, "heights within the error", (\E a \in H : a <= slack) /\ (\E a \in H : a >= -slack), <<p, y, tri[k], e.err, e.dist>>)
        IN /\ \A k \in DOMAIN tri : JudgeV({"C31"}, "the right way round", Twice(tri[k]) >= -2 * (Reach(tri[k][1], tri[k][2]) + Reach(tri[k][2], tri[k][3])), tri[k])
           /\ JudgeV({"C31"}, "area of the polygon", Abs(sum - Twice(q)) <= loose, <<q, tri, sum>>)
           /\ \A x \in x0..(x1 - 1) : \A z \in z0..(z1 - 1) :
                LET p == <<x * SC + 29, 0, z * SC + 23>> IN
                /\ JudgeV({"C31"}, "covers once", Cardinality({k \in DOMAIN tri : InTri(tri[k], p)}) <= (IF OutPoly(q, p) THEN 0 ELSE 1), <<q, p>>)
                /\ JudgeV({"C31"}, "covers everything", InPoly(q, p) => \E k \in DOMAIN tri : ~OutTri(tri[k], p), <<q, p>>)
           /\ \A k \in DOMAIN tri : \A c \in 1..3 :
                LET a == tri[k][c]
                    b == Nxt(tri[k], c)
                    On(j, p) == OnSideOf(q[j], Nxt(q, j), p)
                    \* on side j and not as near to another one
                    Only(j, p) == On(j, p) /\ \A m \in DOMAIN q : m = j \/ ~On(m, p) \/ p \in {q[j], Nxt(q, j)}
                IN JudgeV({"C31"}, "marked sides",
                     IF (T(i)[k][4] \div (4 ^ (c - 1))) % 4 = 1 THEN \E j \in DOMAIN q : On(j, a) /\ On(j, b)
                     ELSE ~\E j \in DOMAIN q : Only(j, a) /\ Only(j, b), <<tri[k], T(i)[k], q>>)
           /\ (d > 0 /\ base(i, 2) < 127 /\ f.regs[i] # 0 /\ wide) =>
                \A mx \in ((x0 * SC) \div d)..((x1 * SC) \div d) : \A mz \in ((z0 * SC) \div d)..((z1 * SC) \div d) : Sampled(mx, mz)
      \* samples along side j of polygon i: <<number, heights by number (-1: not of the region)>>
      Along(i, j) ==
        LET a == P[i][j]  b == Nxt(P[i], j)
            lo == IF FirstLow(a, b) THEN a ELSE b
            hi == IF FirstLow(a, b) THEN b ELSE a
            len2 == (b[1] - a[1]) * (b[1] - a[1]) + (b[3] - a[3]) * (b[3] - a[3])
            \* the number of steps of e.dist/4 that fit
            fit == CHOOSE k \in 0..400 : (k * e.dist) * (k * e.dist) <= 16 * len2 /\ ((k + 1) * e.dist) * ((k + 1) * e.dist) > 16 * len2
            n == Min2(31, 1 + fit)
        IN [n |-> n, lo |-> lo, hi |-> hi, len2 |-> len2,
            y |-> [k \in 0..n |-> RegHeight(f, f.regs[i], (lo[1] * n + (hi[1] - lo[1]) * k) \div n, (lo[3] * n + (hi[3] - lo[3]) * k) \div n)]]
      Few(i) == base(i, 2) <= 90
      \* added vertices on a side, with the number of their sample
      Points(i, g) ==
        LET a == <<g.lo[1] * SC, 0, g.lo[3] * SC>>  b == <<g.hi[1] * SC, 0, g.hi[3] * SC>> IN
        {<<((2 * g.n * ((v[1] - a[1]) * (g.hi[1] - g.lo[1]) + (v[3] - a[3]) * (g.hi[3] - g.lo[3]))) \div (SC * g.len2) + 1) \div 2, v>> :
            v \in {V(i)[k] : k \in {k \in (Len(P[i]) + 1)..base(i, 2) : OnSideOf(a, b, V(i)[k])}}}
      \* every added vertex that is at side j is at no other side
      Clear(i, j) ==
        \A k \in (Len(P[i]) + 1)..base(i, 2) :
          LET v == e.verts[base(i, 1) + k] IN
          OnSideOf(Q[i][j], Nxt(Q[i], j), v) => \A m \in DOMAIN Q[i] : m = j \/ ~OnSideOf(Q[i][m], Nxt(Q[i], m), v)
      \* and so for the other polygon of the side
      Across(o, a, b) == \A m \in DOMAIN P[o] : (SameXZ(P[o][m], b) /\ SameXZ(Nxt(P[o], m), a)) => Clear(o, m)
      DetSides(i) ==
        \A j \in {j \in DOMAIN P[i] : Clear(i, j)} :
          LET g == Along(i, j)
              X == Points(i, g)
              Of(k) == (CHOOSE x \in X : x[1] = k)[2]
              K == {x[1] : x \in X}
          IN /\ \A x \in X : /\ JudgeV({"C31"}, "heights are sampled", g.y[x[1]] = -1 \/ x[2][2] = g.y[x[1]], <<g, x>>)
                             /\ JudgeV({"C31"}, "samples are spaced evenly",
                                  /\ Abs(x[2][1] * g.n - SC * (g.lo[1] * g.n + (g.hi[1] - g.lo[1]) * x[1])) <= 2 * g.n
                                  /\ Abs(x[2][3] * g.n - SC * (g.lo[3] * g.n + (g.hi[3] - g.lo[3]) * x[1])) <= 2 * g.n, <<g, x>>)
             /\ JudgeV({"C31"}, "samples are taken once", Cardinality(K) = Cardinality(X) /\ K \subseteq 1..(g.n - 1), <<g, X>>)
             /\ \A k \in 1..(g.n - 1) :
                  LET lower == {x \in K : x < k}  upper == {x \in K : x > k} IN
                  (k \notin K /\ g.y[k] # -1 /\ lower # {} /\ upper # {}) =>
                    LET k1 == CHOOSE x \in lower : \A y \in lower : y <= x
                        k2 == CHOOSE x \in upper : \A y \in upper : y >= x
                        y1 == Of(k1)[2]  y2 == Of(k2)[2]
                        c == (k - k1) * (y2 - y1) - (g.y[k] - y1) * (k2 - k1)
                        den == (k2 - k1) * (k2 - k1) * g.len2 + (y2 - y1) * (y2 - y1) * g.n * g.n
                    IN JudgeV({"C31"}, "sides within the error", c * c * g.len2 <= (e.err * e.err * den) \div 16 + den \div 50 + 1, <<g, k1, k, k2, e.err>>)
             \* the same at both sides
             /\ LET o == f.nb[i][j] IN
                (o < 32768 /\ f.regs[o + 1] = f.regs[i] /\ Few(o + 1) /\ Convex(P[o + 1]) /\ Across(o + 1, P[i][j], Nxt(P[i], j)) /\ \A k \in 0..g.n : g.y[k] # -1) =>
                   JudgeV({"C31"}, "no seams", {x[2] : x \in X} = {x[2] : x \in Points(o + 1, g)}, <<i, o + 1, g, X, Points(o + 1, g)>>)
  IN If(/\ JudgeV({"C31"}, "succeeds", e.ok, 0)
        /\ JudgeV({"C31"}, "nothing else changes", e.same, 0)
        /\ JudgeV({"C31"}, "one mesh per polygon", ok1, M)
        /\ \A i \in N : Structure(i) /\ (Convex(P[i]) => Covers(i))
        /\ e.dist > 0 => \A i \in N : (f.regs[i] # 0 /\ Few(i) /\ Convex(P[i])) => DetSides(i),
        f)

TSStep(f, e) ==
  CASE e.ev = "Regions" -> Regions(f, e)
    [] e.ev = "Contours" -> {f}
    [] e.ev = "Mesh" -> Meshed(f, e)
    [] e.ev = "Detail" -> Detailed(f, e)
    [] OTHER -> {}
================================================================================
