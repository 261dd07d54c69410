-------------------------- MODULE Heightfield_trace ---------------------------
(* C23: recorded rasterizations.                                             *)
EXTENDS TraceKit, Raster

TSStart(e) == e

\* A case holds the triangles of one cell column (or of a whole field).
\* c: all spans of the twin whose floor is solid and which is walkable all
\* over; a: the walkable spans of the field itself.
Raster(st, e) ==
  LET w == e.w  q == e.q  N == 1..(w * e.h)
      X(i) == ((i - 1) % w) * q
      Z(i) == ((i - 1) \div w) * q
      Cell(i) ==
        LET R == [k \in 1..Len(e.tris) |-> Rows(e.tris[k], X(i), Z(i), q, e.rows, e.exact)]
            must == UNION {R[k].must : k \in DOMAIN R}
            may == UNION {R[k].may : k \in DOMAIN R}
            solid == SolidRows(e.c[i], e.rows)
            sure == \A k \in DOMAIN R : R[k].must = R[k].may
            RECURSIVE Fold(_, _)
            Fold(k, col) ==
              IF k > Len(e.tris) THEN col
              ELSE Fold(k + 1, IF R[k].must = {} THEN col
                               ELSE Insert(col, <<MinS(R[k].must), MaxS(R[k].must) + 1, e.tris[k][10]>>, e.thr))
        IN /\ ChkV("separate spans", Apart(e.c[i]), <<i, e.c[i]>>)
           /\ ChkV("solid where touched", (must \cup {0}) \subseteq solid, <<i, must \ solid>>)
           /\ ChkV("solid only where touched", solid \subseteq (may \cup {0}), <<i, solid \ may>>)
           /\ IF sure
              THEN LET v == Visible(Fold(1, <<>>)) IN ChkV("walkable spans", e.a[i] = v, <<i, e.a[i], v>>)
              ELSE ChkV("walkable tops",
                        \A j \in 1..Len(e.a[i]) :
                           /\ \E k \in 1..Len(e.c[i]) : e.c[i][k][1] = e.a[i][j][1]
                           /\ \E k \in DOMAIN R : R[k].may # {} /\ e.tris[k][10] = e.a[i][j][3], <<i, e.a[i]>>)
  IN If(Chk("succeeds", e.ok) /\ Len(e.c) = w * e.h /\ Len(e.a) = w * e.h /\ \A i \in N : Cell(i), st)

TSStep(st, e) ==
  CASE e.ev = "Raster" -> Raster(st, e)
    [] OTHER -> {}
==============================================================================
