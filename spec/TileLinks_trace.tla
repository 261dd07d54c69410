-------------------------- MODULE TileLinks_trace ---------------------------
(* C04: the connections of every present tile, after every operation, are    *)
(* those TileLinks derives from the set of present tiles.                    *)
EXTENDS TraceKit, TileLinks

\* links in events: [p, j, side, k2, q, b0, b1]; side 255 inside a tile
TSStart(e) ==
  LET T == e.tiles  n == Len(T) IN
  [T |-> T, cap |-> e.cap, here |-> {},
   int |-> [k \in 1..n |-> Internal(T[k])],
   ext |-> [ab \in (1..n) \X (1..n) |-> IF ab[1] = ab[2] THEN {} ELSE Candidates(T, ab[1], ab[2], e.climb10)]]

\* an observed connection o realises candidate c
Fits(o, c) == /\ o[1] = c.p /\ o[2] = c.j /\ o[3] = c.side /\ o[5] = c.q
              /\ o[6] \in c.l0 /\ o[7] \in c.l1

TileOK(st, t) ==
  LET k == t.k
      obs == Range(t.ls)
      inn == {o \in obs : o[3] = 255}
      out == obs \ inn
      nei == st.here \ {k}
      want == SumFn([u \in nei |-> Cardinality(st.ext[<<k, u>>])], nei) + Cardinality(st.int[k])
      room == want <= st.cap[k]
  IN
  /\ ChkV("connection listed twice", Cardinality(obs) = Len(t.ls), k)
  /\ ChkV("connection to nothing", \A o \in obs : o[4] \in st.here, k)
  /\ ChkV("inside the tile", {<<o[1], o[2], o[5]>> : o \in inn} = st.int[k] /\ \A o \in inn : o[4] = k, k)
  /\ \A o \in out : ChkV("unexpected connection", o[4] # k /\ \E c \in st.ext[<<k, o[4]>>] : Fits(o, c), <<k, o>>)
  /\ \A u \in nei :
       LET cs == st.ext[<<k, u>>]
           edges == {<<c.p, c.j>> : c \in cs} IN
       \A e \in edges :
         LET ce == {c \in cs : c.p = e[1] /\ c.j = e[2]}
             oe == {o \in out : o[4] = u /\ o[1] = e[1] /\ o[2] = e[2]} IN
         /\ ChkV("two connections to one polygon", Cardinality({o[5] : o \in oe}) = Cardinality(oe), <<k, u, e>>)
         /\ IF ~room THEN TRUE
            ELSE IF Cardinality(ce) > 4 THEN ChkV("four connections", Cardinality(oe) = 4, <<k, u, e>>)
            ELSE \A c \in ce : c.must => ChkV("missing connection", \E o \in oe : Fits(o, c), <<k, u, c.p, c.j, c.q>>)
  /\ ChkV("connection records leaked", t.free + Len(t.ls) = st.cap[k], <<k, t.free, Len(t.ls), st.cap[k]>>)

TSStep(st, e) ==
  CASE e.ev = "Add" -> If(Chk("add", e.ok), [st EXCEPT !.here = @ \cup {e.k}])
    [] e.ev = "Remove" -> If(Chk("remove", e.ok), [st EXCEPT !.here = @ \ {e.k}])
    [] e.ev = "Links" -> If(/\ Chk("tiles", {e.t[i].k : i \in 1..Len(e.t)} = st.here)
                            /\ \A i \in 1..Len(e.t) : TileOK(st, e.t[i]), st)
    [] OTHER -> {}
=============================================================================
