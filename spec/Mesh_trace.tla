------------------------------ MODULE Mesh_trace ------------------------------
(* C29, C30: recorded contours and polygon meshes.                           *)
EXTENDS TraceKit, Outline

TSStart(e) == [w |-> e.w, h |-> e.h, cells |-> e.cells, reg |-> <<>>, border |-> 0, conts |-> <<>>, err |-> 0]

Regions(f, e) == If(Chk("partitioned", e.ok), [f EXCEPT !.reg = e.reg, !.border = e.border])

\* ---------------------------------------------------------------- contours
Outlined(f, e) ==
  LET U == PSpans(f)
      con == [u \in U |-> [d \in 0..3 |-> PCon(f, u, d)]]
      inner == {u \in U : RegOf(f, u) # 0 /\ RegOf(f, u) < BorderBit}
      ids == {RegOf(f, u) : u \in inner}
      mem == [r \in ids |-> {u \in inner : RegOf(f, u) = r}]
      b == e.border
      C == e.conts
      of(r) == {i \in DOMAIN C : C[i].reg = r}
      Walls == e.flags % 2 = 1
      Areas == (e.flags \div 2) % 2 = 1
      Split == e.edge > 0 /\ (Walls \/ Areas)   \* sides may be cut at corners of the outline
      \* the raw outline is the one that starts with side x
      At(x, v) == v[1] = CornerX(f, x) - b /\ v[3] = CornerZ(f, x) - b
      Fits1(x, v) == /\ At(x, v)
                     /\ v[2] = CornerY(f, con, x)
                     /\ LabelReg(v) = RegOf(f, con[x[1]][x[2]])
                     /\ AreaEdge(v) = BetweenAreas(f, con, x)
                     /\ Removable(v) => OnTileBorder(f, con, x)
      Follows(raw, q) == Len(raw) = Len(q) /\ \A i \in DOMAIN q : Fits1(q[i], raw[i])
      RawOk(r, raw) == \E x \in {x \in Rims(con, mem[r]) : At(x, raw[1])} : Follows(raw, Cycle(con, mem[r], x))
      \* a region without holes
      Round(r) == Cardinality(CyclesOf(con, mem[r], Rims(con, mem[r]))) = 1
      Distinct(raw) == \A i \in DOMAIN raw : \A j \in (i + 1)..Len(raw) : ~SameXZ(raw[i], raw[j])
      plain == {i \in DOMAIN C : Distinct(C[i].raw)}   \* outlines that do not touch themselves
      RawAt(raw, v) == {i \in DOMAIN raw : raw[i][1] = v[1] /\ raw[i][2] = v[2] /\ raw[i][3] = v[3]}
      Corner(raw, v) == LET S == RawAt(raw, v) IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
      \* a corner that has to be kept: the neighbour changes here
      Kept(raw, i) == Label(raw[i]) # Label(Nxt(raw, i))
      Outer(v) == LabelReg(v) = 0 \/ AreaEdge(v)
      Stretch(raw, v, i) ==   \* side i of the simplified outline
        LET n == Len(raw)
            p == Corner(raw, v[i])
            q == Corner(raw, Nxt(v, i))
            len == IF q > p THEN q - p ELSE q + n - p
            k(j) == ((p + j - 1) % n) + 1
            lab == raw[k(1)]
            dx == raw[q][1] - raw[p][1]
            dz == raw[q][3] - raw[p][3]
        IN /\ JudgeV({"C29"}, "corners are corners of the outline", p # 0 /\ q # 0, <<v[i], Nxt(v, i)>>)
           /\ JudgeV({"C29"}, "corners where the neighbour changes are kept", \A j \in 1..(len - 1) : ~Kept(raw, k(j)), <<v[i], Nxt(v, i), e.err>>)
           /\ JudgeV({"C29"}, "within the error",
                     Outer(lab) => \A j \in 1..(len - 1) :
                        IF Split THEN \E m \in DOMAIN v : Close(v[m], Nxt(v, m), raw[k(j)], 2 * e.err)
                        ELSE Close(raw[p], raw[q], raw[k(j)], e.err), <<v[i], Nxt(v, i), e.err>>)
           /\ JudgeV({"C29"}, "side data", Label(v[i]) = Label(lab) /\ Removable(v[i]) = Removable(raw[p]), <<v[i], lab, raw[p]>>)
           /\ JudgeV({"C29"}, "edge length",
                     (e.edge > 0 /\ len > 1 /\ ((Walls /\ LabelReg(lab) = 0) \/ (Areas /\ AreaEdge(lab)))) => dx * dx + dz * dz <= e.edge * e.edge,
                     <<v[i], Nxt(v, i), e.edge, e.flags>>)
           \* one step of the way round
           /\ JudgeV({"C29"}, "corners in order", i < Len(v) => q > p \/ \A j \in 1..(i - 1) : Corner(raw, v[j + 1]) > Corner(raw, v[j]), v)
      Wraps(raw, v) == Cardinality({i \in DOMAIN v : Corner(raw, Nxt(v, i)) <= Corner(raw, v[i])}) = 1
      Simplified(raw, v) ==
        /\ \A i \in DOMAIN v : Stretch(raw, v, i)
        /\ JudgeV({"C29"}, "once round", Wraps(raw, v), v)
      Known(v) == {v[i] : i \in DOMAIN v}
      Straight(r, i) ==   \* sides to other regions match
        LET v == C[i].v IN
        \A j \in DOMAIN v :
          LET o == LabelReg(v[j]) IN
          (o \in ids /\ of(o) # {} /\ of(o) \subseteq plain) =>
             JudgeV({"C29"}, "sides between regions match",
                    \E m \in of(o) : \E k \in DOMAIN C[m].v :
                       /\ LabelReg(C[m].v[k]) = r
                       /\ SameXZ(C[m].v[k], Nxt(v, j))
                       /\ SameXZ(Nxt(C[m].v, k), v[j]), <<r, o, v[j], Nxt(v, j)>>)
      \* what may have no outline: single spans of their own, and what collapses
      Collapses(r) ==
        LET E == Rims(con, mem[r])
            q == Cycle(con, mem[r], CHOOSE x \in E : TRUE)
            pts == [i \in DOMAIN q |-> <<CornerX(f, q[i]), 0, CornerZ(f, q[i]), RegOf(f, con[q[i][1]][q[i][2]]) + (IF BetweenAreas(f, con, q[i]) THEN 131072 ELSE 0)>>]
            K == {i \in DOMAIN pts : Kept(pts, i)}
            All(i, j) == \A k \in DOMAIN pts : Outer(pts[k]) => Close(pts[i], pts[j], pts[k], e.err)
        IN \/ Cardinality(mem[r]) = 1
           \/ Cardinality(K) <= 2 /\ \E i \in DOMAIN pts : \E j \in DOMAIN pts : K \subseteq {i, j} /\ All(i, j)
  IN If(/\ JudgeV({"C29"}, "succeeds", e.ok, 0)
        /\ JudgeV({"C29"}, "nothing else changes", e.same, 0)
        /\ JudgeV({"C29"}, "header", e.head /\ e.border = f.border /\ e.w = f.w - 2 * f.border /\ e.h = f.h - 2 * f.border, <<e.w, e.h, e.border>>)
        /\ \A i \in DOMAIN C :
             LET c == C[i]  r == c.reg IN
             /\ JudgeV({"C29"}, "of a region", r \in ids, r)
             /\ JudgeV({"C29"}, "area", \A u \in mem[r] : PArea(f, u) = c.area, <<r, c.area>>)
             /\ JudgeV({"C29"}, "follows the region", RawOk(r, c.raw), <<r, c.raw>>)
             /\ JudgeV({"C29"}, "at least three corners", Len(c.v) >= 3, c.v)
             /\ Round(r) => JudgeV({"C29"}, "encloses something", Twice(c.raw) > 0, c.raw)
             /\ i \in plain => Simplified(c.raw, c.v) /\ Straight(r, i)
        /\ \A r \in ids :
             /\ JudgeV({"C29"}, "one outline per region", Cardinality(of(r)) <= 1 \/ ~Round(r), r)
             /\ JudgeV({"C29"}, "every region is outlined", of(r) # {} \/ Collapses(r), <<r, mem[r], e.err>>),
        [f EXCEPT !.conts = [i \in DOMAIN C |-> [reg |-> C[i].reg, area |-> C[i].area, v |-> C[i].v, simple |-> Twice(C[i].v) > 0 /\ Simple(C[i].v), plain |-> i \in plain]],
                  !.err = e.err])

\* ---------------------------------------------------------------- polygon meshes
Meshed(f, e) ==
  LET C == f.conts
      V == e.verts
      P == e.polys
      N == DOMAIN P
      w == f.w - 2 * f.border
      h == f.h - 2 * f.border
      pts == [i \in N |-> [j \in DOMAIN P[i] |-> V[P[i][j] + 1]]]
      good == \A c \in DOMAIN C : C[c].simple
      whole == ~\E c \in DOMAIN C : \E j \in DOMAIN C[c].v : Removable(C[c].v[j])
      \* corners that are removed are on straight sides
      Steps == UNION {{<<<<C[c].v[j][1], C[c].v[j][3]>>, <<Nxt(C[c].v, j)[1], Nxt(C[c].v, j)[3]>>>> : j \in DOMAIN C[c].v} : c \in DOMAIN C}
      rim == {x \in Steps : <<x[2], x[1]>> \notin Steps}
      Rem2 == UNION {{<<C[c].v[j][1], C[c].v[j][3]>> : j \in {j \in DOMAIN C[c].v : Removable(C[c].v[j])}} : c \in DOMAIN C}
      flat == \A b \in Rem2 :
        LET before == {x[1] : x \in {x \in rim : x[2] = b}}
            after == {x[2] : x \in {x \in rim : x[1] = b}}
        IN Cardinality(before) = 1 /\ Cardinality(after) = 1 /\
           LET p == CHOOSE p \in before : TRUE
               n == CHOOSE n \in after : TRUE
           IN (b[1] - p[1]) * (n[2] - p[2]) = (n[1] - p[1]) * (b[2] - p[2])
      SimpleReg(r) == \A c \in DOMAIN C : C[c].reg = r => C[c].simple
      Sum(S, q(_)) == LET RECURSIVE F(_)
                          F(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN Twice(q(x)) + F(T \ {x})
                      IN F(S)
      Pq(i) == pts[i]
      Cq(c) == C[c].v
      \* polygons and contours of a kind cover the same
      Cover(cs, ps, what) ==
        /\ JudgeV({"C29"}, "covers as much as the outlines", Sum(ps, Pq) = Sum(cs, Cq), <<what, Sum(ps, Pq), Sum(cs, Cq)>>)
        /\ \A x \in 0..(w - 1) :
             \A z \in 0..(h - 1) :
               LET n == Cardinality({i \in ps : InConvex(pts[i], x, z)})
                   m == Cardinality({c \in cs : WindAt(C[c].v, x, z) # 0})
               IN JudgeV({"C29"}, "covers what is outlined", n = m, <<what, x, z, n, m>>)
      regs == {C[c].reg : c \in DOMAIN C}
      areas == {C[c].area : c \in DOMAIN C}
      next(i, j) == P[i][(j % Len(P[i])) + 1]
      sides == UNION {{<<i, j>> : j \in DOMAIN P[i]} : i \in N}
      back == [x \in sides |-> {y \in sides : P[y[1]][y[2]] = next(x[1], x[2]) /\ next(y[1], y[2]) = P[x[1]][x[2]]}]
      fore == [x \in sides |-> {y \in sides : P[y[1]][y[2]] = P[x[1]][x[2]] /\ next(y[1], y[2]) = next(x[1], x[2])}]
      Mark(a, c) == IF a[1] = 0 /\ c[1] = 0 THEN 32768
                    ELSE IF a[3] = h /\ c[3] = h THEN 32769
                    ELSE IF a[1] = w /\ c[1] = w THEN 32770
                    ELSE IF a[3] = 0 /\ c[3] = 0 THEN 32771
                    ELSE 65535
      Passable(n) == n < 32768
      Side(x) ==
        LET i == x[1]  j == x[2]  nb == e.nb[i][j]  a == V[P[i][j] + 1]  c == V[next(i, j) + 1] IN
        IF Passable(nb)
        THEN JudgeV({"C30"}, "mutual", \E y \in back[x] : y[1] = nb + 1 /\ e.nb[y[1]][y[2]] = i - 1, <<a, c, nb>>)
        ELSE /\ JudgeV({"C30"}, "wall or portal", nb = (IF f.border > 0 THEN Mark(a, c) ELSE 65535), <<a, c, nb, w, h>>)
             /\ JudgeV({"C30"}, "neighbour", \A y \in back[x] : Passable(e.nb[y[1]][y[2]]), <<a, c, nb>>)
      \* two polygons of a region that could have been one
      Bend(i, j) == LET q == pts[i] IN <<q[((j - 2 + Len(q)) % Len(q)) + 1], q[((j + 1) % Len(q)) + 1]>>    \* before and after side j
      Joins(x, y) ==
        LET i == x[1]  k == y[1]  a == pts[i][x[2]]  c == V[next(i, x[2]) + 1]
            bx == Bend(i, x[2])  by == Bend(k, y[2])
        IN /\ Len(P[i]) + Len(P[k]) - 2 <= e.nvp
           /\ Cross(bx[1], a, by[2]) < 0
           /\ Cross(by[1], c, bx[2]) < 0
      Unmerged(x) ==
        \A y \in back[x] :
          (x[1] < y[1] /\ e.regs[x[1]] = e.regs[y[1]] /\ Cardinality({c \in DOMAIN C : C[c].reg = e.regs[x[1]]}) = 1 /\ Cardinality(Range(P[x[1]]) \cap Range(P[y[1]])) = 2) =>
            JudgeV({"C30"}, "as few polygons as possible", ~Joins(x, y), <<pts[x[1]], pts[y[1]]>>)
      Near(a, c) == SameXZ(a, c) /\ Abs(a[2] - c[2]) <= 2
      Opposite(o, a, z) == \E d \in DOMAIN C :
                             /\ C[d].reg = o
                             /\ \E k \in DOMAIN C[d].v : Near(C[d].v[k], z) /\ Near(Nxt(C[d].v, k), a)
      gone == UNION {{C[c].v[j] : j \in {j \in DOMAIN C[c].v : Removable(C[c].v[j])}} : c \in DOMAIN C}
      Gone(a) == \E b \in gone : SameXZ(a, b)
      corners == UNION {Range(C[c].v) : c \in DOMAIN C}
      \* no other corner to mix it up with
      Alone(a) == \A b \in corners : SameXZ(a, b) => Abs(a[2] - b[2]) <= 1 \/ Abs(a[2] - b[2]) >= 5
      \* outlines stay sides of polygons; sides between regions are passable
      Keeps(c) ==
        \A j \in DOMAIN C[c].v :
          LET a == C[c].v[j]  z == Nxt(C[c].v, j)
              S == {x \in sides : Near(V[P[x[1]][x[2]] + 1], a) /\ Near(V[next(x[1], x[2]) + 1], z)}
              o == LabelReg(a)
          IN Gone(a) \/ Gone(z) \/
             /\ JudgeV({"C30"}, "outlines are sides of polygons", S # {}, <<a, z>>)
             /\ JudgeV({"C30"}, "regions stay connected",
                  (o \in regs /\ whole /\ SimpleReg(o) /\ Opposite(o, a, z) /\ Alone(a) /\ Alone(z)) => \E x \in S : e.nb[x[1]][x[2]] < 32768 /\ e.regs[e.nb[x[1]][x[2]] + 1] = o, <<a, z, o>>)
  IN If(/\ JudgeV({"C29", "C30"}, "succeeds", e.ok, 0)
        /\ JudgeV({"C30"}, "nothing else changes", e.same, 0)
        /\ JudgeV({"C30"}, "header", e.head, 0)
        /\ JudgeV({"C30"}, "unused places are empty", e.rest, 0)
        /\ \A i \in N :
             /\ JudgeV({"C30"}, "number of corners", Len(P[i]) >= 3 /\ Len(P[i]) <= e.nvp, P[i])
             /\ JudgeV({"C30"}, "corners exist", \A j \in DOMAIN P[i] : P[i][j] < Len(V), P[i])
             /\ JudgeV({"C30"}, "corners are distinct", Cardinality(Range(P[i])) = Len(P[i]), P[i])
             /\ (IF whole THEN SimpleReg(e.regs[i]) ELSE good /\ (flat \/ e.regs[i] # 0)) => JudgeV({"C30"}, "convex", Convex(pts[i]), pts[i])
             /\ JudgeV({"C29"}, "within the field", \A j \in DOMAIN pts[i] : pts[i][j][1] \in 0..w /\ pts[i][j][3] \in 0..h, pts[i])
             /\ JudgeV({"C29"}, "region kept", e.regs[i] \in regs \/ (~whole /\ e.regs[i] = 0), e.regs[i])
             /\ JudgeV({"C29"}, "area kept", IF e.regs[i] = 0 THEN e.areas[i] \in areas ELSE
                                             \E c \in DOMAIN C : C[c].reg = e.regs[i] /\ C[c].area = e.areas[i], <<e.regs[i], e.areas[i]>>)
        /\ \A i \in 1..Len(V) : \A j \in (i + 1)..Len(V) : JudgeV({"C30"}, "equal corners are one", V[i] # V[j], V[i])
        /\ (good /\ f.err = 0) => \A x \in sides : JudgeV({"C30"}, "sides have one polygon at each side", Cardinality(fore[x]) = 1 /\ Cardinality(back[x]) <= 1, pts[x[1]])
        /\ \A x \in sides : Side(x) /\ (whole => Unmerged(x))
        /\ \A c \in DOMAIN C : C[c].simple => Keeps(c)
        /\ IF whole THEN \A r \in regs : SimpleReg(r) => Cover({c \in DOMAIN C : C[c].reg = r}, {i \in N : e.regs[i] = r}, <<"region", r>>)
           ELSE (good /\ flat) => \A r \in areas : Cover({c \in DOMAIN C : C[c].area = r}, {i \in N : e.areas[i] = r}, <<"area", r>>)
        /\ (~whole /\ good /\ flat) =>
             \A i \in N : e.regs[i] # 0 =>
               \A x \in 0..(w - 1) : \A z \in 0..(h - 1) :
                 InConvex(pts[i], x, z) => JudgeV({"C29"}, "a region stays where it is", \E c \in DOMAIN C : C[c].reg = e.regs[i] /\ WindAt(C[c].v, x, z) # 0, <<pts[i], e.regs[i], x, z>>),
        f)

TSStep(f, e) ==
  CASE e.ev = "Regions" -> Regions(f, e)
    [] e.ev = "Contours" -> Outlined(f, e)
    [] e.ev = "Mesh" -> Meshed(f, e)
    [] OTHER -> {}
================================================================================
