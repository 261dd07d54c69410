---------------------------- MODULE Geometry_trace -----------------------------
(* C32, C33: recorded loads and chunk searches.                              *)
EXTENDS TraceKit, Geometry

TSStart(e) ==
  IF Has(e, "tris") THEN [verts |-> e.verts, tris |-> e.tris, leaves |-> {}, box |-> <<>>]
  ELSE [verts |-> <<>>, tris |-> <<>>, leaves |-> {}, box |-> <<>>]

\* ------------------------------------------------------------------ loading
Load(st, e) ==
  LET L == e.lines
      n == Len(L)
      V == Verts(L, n)
      T == Triangles(L, n)
      P(k, i) == V[3 * k + i]
      Cross(t) == LET a == T[3 * t + 1]  b == T[3 * t + 2]  c == T[3 * t + 3]
                      u(i) == P(b, i) - P(a, i)  v(i) == P(c, i) - P(a, i)
                  IN <<u(2) * v(3) - u(3) * v(2), u(3) * v(1) - u(1) * v(3), u(1) * v(2) - u(2) * v(1)>>
      \* coordinates small enough to compute with
      Small == \A i \in DOMAIN V : Abs(V[i]) <= 40
      Normal(t) ==
        LET c == Cross(t)  m == SubSeq(e.normals, 3 * t + 1, 3 * t + 3) IN
        IF c = <<0, 0, 0>> THEN m = <<0, 0, 0>>
        ELSE /\ Abs(m[1] * m[1] + m[2] * m[2] + m[3] * m[3] - 1000000) <= 2000
             /\ \A i \in 1..3 : LET j == (i % 3) + 1 IN Abs(m[i] * c[j] - m[j] * c[i]) <= Abs(c[i]) + Abs(c[j])
             /\ m[1] * c[1] + m[2] * c[2] + m[3] * c[3] > 0
      Ext(i, lo) == LET S == {V[3 * k + i] : k \in 0..(Len(V) \div 3 - 1)} IN IF lo THEN MinOf(S) ELSE MaxOf(S)
      Lo == [i \in 1..3 |-> Ext(i, TRUE)]
      Hi == [i \in 1..3 |-> Ext(i, FALSE)]
  IN If(/\ JudgeV({"C33"}, "malformed input is an error", ~GoodFile(L) => e.err, L)
        /\ JudgeV({"C33"}, "good input is loaded", (GoodFile(L) /\ T # <<>>) => ~e.err, L)
        /\ e.err \/
           /\ JudgeV({"C33"}, "vertices", e.verts = V /\ 3 * e.nverts = Len(V), <<e.verts, V>>)
           /\ JudgeV({"C33"}, "triangles", e.tris = T /\ 3 * e.ntris = Len(T), <<e.tris, T>>)
           /\ JudgeV({"C33"}, "number of normals", Len(e.normals) = Len(T), Len(e.normals))
           /\ Small => \A t \in 0..(Len(T) \div 3 - 1) : JudgeV({"C33"}, "unit normal", Normal(t), <<t, SubSeq(e.normals, 3 * t + 1, 3 * t + 3), Cross(t)>>)
           /\ JudgeV({"C33"}, "scale", e.scale, 0)
           /\ e.via = "geom" => JudgeV({"C33"}, "bounds", e.lo = Lo /\ e.hi = Hi /\ e.nlo = Lo /\ e.nhi = Hi, <<e.lo, e.hi, Lo, Hi>>),
        st)

\* ------------------------------------------------------------------- chunks
Count(q, v) == Cardinality({i \in DOMAIN q : q[i] = v})
SameBag(q, t) ==
  /\ Len(q) = Len(t)
  /\ LET R == Range(q) IN
     /\ R = Range(t)
     /\ Cardinality(R) = Len(q) \/ \A v \in R : Count(q, v) = Count(t, v)

Chunks(st, e) ==
  LET Leaves == {i \in DOMAIN e.nodes : e.nodes[i][5] >= 0}
      Bx(i) == SubSeq(e.nodes[i], 1, 4)
      TriBox(t) == LET X == {st.verts[t[j] + 1][1] : j \in 1..3}  Z == {st.verts[t[j] + 1][2] : j \in 1..3}
                   IN <<MinOf(X), MinOf(Z), MaxOf(X), MaxOf(Z)>>
      Of(i) == {e.ctris[k] : k \in (e.nodes[i][5] + 1)..(e.nodes[i][5] + e.nodes[i][6])}
  IN If(/\ JudgeV({"C32"}, "loaded", ~e.err, 0)
        /\ JudgeV({"C32"}, "every triangle once", SameBag(e.ctris, st.tris), <<Len(e.ctris), Len(st.tris)>>)
        /\ JudgeV({"C32"}, "chunks hold every triangle once",
             /\ SumFn([i \in Leaves |-> e.nodes[i][6]], Leaves) = Len(st.tris)
             /\ \A i \in Leaves : e.nodes[i][5] + e.nodes[i][6] <= Len(st.tris)
             /\ \A i, j \in Leaves : i # j => (e.nodes[i][5] + e.nodes[i][6] <= e.nodes[j][5] \/ e.nodes[j][5] + e.nodes[j][6] <= e.nodes[i][5]),
             e.nodes)
        /\ JudgeV({"C32"}, "size of chunks", e.max = MaxOf({e.nodes[i][6] : i \in Leaves}) /\ \A i \in Leaves : e.nodes[i][6] \in 1..256, e.max)
        /\ \A i \in Leaves : LET h == Hull({TriBox(t) : t \in Of(i)}) IN JudgeV({"C32"}, "bounds of chunks", Bx(i) = h, <<i, Bx(i), h>>),
        [st EXCEPT !.leaves = Leaves, !.box = [i \in Leaves |-> Bx(i)]])

Rect(st, e) ==
  LET want == {i - 1 : i \in {i \in st.leaves : Lap(st.box[i], e.q)}} IN
  If(/\ JudgeV({"C32"}, "found chunks overlap", Range(e.ids) \subseteq want, <<e.ids, want>>)
     /\ JudgeV({"C32"}, "all chunks found once", Len(e.ids) = Cardinality(Range(e.ids)) /\ Len(e.ids) = Min2(e.room, Cardinality(want)), <<e.ids, want>>),
     st)

TSStep(st, e) ==
  CASE e.ev = "Load" -> Load(st, e)
    [] e.ev = "Chunks" -> Chunks(st, e)
    [] e.ev = "Rect" -> Rect(st, e)
    [] OTHER -> {}
==============================================================================
