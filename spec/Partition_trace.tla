---------------------------- MODULE Partition_trace ----------------------------
(* C28: recorded partitionings.                                              *)
EXTENDS TraceKit, Partition

TSStart(e) == [w |-> e.w, h |-> e.h, cells |-> e.cells]

Partitioned(f, e) ==
  LET b == e.border
      U == PSpans(f)
      reg(u) == e.reg[u[1]][u[2]]
      walk == {u \in U : PArea(f, u) # 0}
      outer == {u \in walk : InBorder(f, b, u[1])}
      inner == walk \ outer
      to == [u \in walk |-> {PCon(f, u, d) : d \in 0..3} \cap walk]
      nb == [u \in inner |-> to[u] \cap inner]
      parts == R!Components(nb, inner)
      Small(p) == Cardinality(p) < e.min /\ \A u \in p : to[u] \cap outer = {}
      ids == {reg(u) : u \in inner} \ {0}
      mem == [r \in ids |-> {u \in inner : reg(u) = r}]
      cellsOf == [r \in ids |-> {u[1] : u \in mem[r]}]
      areaOf == [r \in ids |-> PArea(f, CHOOSE u \in mem[r] : TRUE)]
      con(u, d) == PCon(f, u, d)
      touch == {<<p, q>> \in ids \X ids : p # q /\ \E u \in mem[p] : \E v \in nb[u] : reg(v) = q}
      \* a small region that touches another along one stretch of their outlines is merged
      Left == {x \in touch : LET p == x[1]  q == x[2] IN
                 /\ Cardinality(mem[p]) <= e.merge
                 /\ areaOf[p] = areaOf[q]
                 /\ cellsOf[p] \cap cellsOf[q] = {}
                 /\ R!Stretches(con, mem[p], mem[q]) = 1
                 /\ R!Stretches(con, mem[q], mem[p]) = 1}
  IN If(/\ JudgeV({"C28"}, "succeeds", e.ok, 0)
        /\ \A u \in U \ walk : JudgeV({"C28"}, "what can not be walked on is in no region", reg(u) = 0, <<u, reg(u)>>)
        /\ \A u \in outer : JudgeV({"C28"}, "border", reg(u) >= BorderBit, <<u, reg(u)>>)
        /\ \A u \in inner : JudgeV({"C28"}, "inner", reg(u) < BorderBit /\ reg(u) <= e.max, <<u, reg(u), e.max>>)
        /\ \A p \in parts : JudgeV({"C28"}, "small parts are dropped, others are covered", \A u \in p : (reg(u) = 0) = Small(p),
                                   <<Cardinality(p), e.min, {reg(u) : u \in p}>>)
        /\ \A r \in ids :
             /\ JudgeV({"C28"}, "one area", \A u \in mem[r] : PArea(f, u) = areaOf[r], r)
             /\ JudgeV({"C28"}, "connected", R!Connected(nb, mem[r]), <<r, mem[r]>>)
             /\ JudgeV({"C28"}, "no overlap", Cardinality(cellsOf[r]) = Cardinality(mem[r]), r)
        /\ JudgeV({"C28"}, "small regions are merged", Left = {}, Left)
        /\ JudgeV({"C28"}, "nothing else changes", e.same, 0),
        f)

\* many regions: not all can be numbered
Many(f, e) ==
  If(/\ JudgeV({"C28"}, "too many regions are refused", e.n >= BorderBit => ~e.ok, e.n)
     /\ JudgeV({"C28"}, "many regions are not", e.n < BorderBit - 8 => e.ok /\ e.distinct = e.n, <<e.n, e.ok, e.distinct>>), f)

TSStep(f, e) ==
  CASE e.ev = "Regions" -> Partitioned(f, e)
    [] e.ev = "Many" -> Many(f, e)
    [] OTHER -> {}
================================================================================
