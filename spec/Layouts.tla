------------------------------- MODULE Layouts -------------------------------
(* All small layouts of blocks, placed one by one: what is certainly walkable  *)
(* and what may be, compared with each other, with other agents, with the      *)
(* layout mirrored and turned, and with level ground, where both are known.    *)
EXTENDS Terrain, TLC
CONSTANTS NX, NZ, B, Rs, Cs

Contents == {<<>>, <<<<0, 1>>>>, <<<<0, 7>>>>, <<<<0, 13>>>>, <<<<0, 1>>, <<11, 14>>>>}
VARIABLES blocks, c, r
vars == <<blocks, c, r>>

Init == blocks = <<>> /\ c \in Cs /\ r \in Rs
Place == /\ Len(blocks) < NX * NZ
         /\ \E b \in Contents : blocks' = Append(blocks, b)
         /\ UNCHANGED <<c, r>>
Spec == Init /\ [][Place]_vars

Full == Len(blocks) = NX * NZ
Of(nx, nz, bl, cc, rr, hh) ==
  [xb |-> [x \in 1..(nx * B) |-> (x - 1) \div B + 1], zb |-> [z \in 1..(nz * B) |-> (z - 1) \div B + 1],
   nx |-> nx, blocks |-> bl, h |-> hh, c |-> cc, r |-> rr]
E == Of(NX, NZ, blocks, c, r, 7)
GM(e) == May(e, StepFn(e, Good(e)), Good(e))
GS(e) == Must(e, StepFn(e, Good(e)), Good(e))

\* what is certain is possible
Certain == Full => GS(E) \subseteq GM(E)
\* a bigger agent walks nowhere a smaller one cannot
Bigger == Full =>
  /\ GM(Of(NX, NZ, blocks, c, r + 1, 7)) \subseteq GM(E)
  /\ GS(Of(NX, NZ, blocks, c, r + 1, 7)) \subseteq GS(E)
  /\ GM(Of(NX, NZ, blocks, c, r, 8)) \subseteq GM(E)
  /\ GM(E) \subseteq GM(Of(NX, NZ, blocks, c + 1, r, 7))
\* steps go both ways
BothWays == Full =>
  LET G == Good(E)  nb == StepFn(E, G) IN
  \A f \in G : \A d \in 0..3 : \A g \in nb[f][d] : f \in nb[g][(d + 2) % 4]
\* turned and mirrored layouts
Turned == [i \in 1..(NX * NZ) |-> LET x == (i - 1) % NZ  z == (i - 1) \div NZ IN blocks[x * NX + z + 1]]
TurnIdx(i) == (((i - 1) % (NX * B)) * (NZ * B)) + ((i - 1) \div (NX * B)) + 1
Mirror == [i \in 1..(NX * NZ) |-> LET x == (i - 1) % NX  z == (i - 1) \div NX IN blocks[z * NX + NX - x]]
MirrorIdx(i) == ((i - 1) \div (NX * B)) * (NX * B) + NX * B - ((i - 1) % (NX * B))
Moved(S, F(_)) == {<<F(f[1]), f[2]>> : f \in S}
Alike == Full =>
  LET t == Of(NZ, NX, Turned, c, r, 7)  m == Of(NX, NZ, Mirror, c, r, 7) IN
  /\ GM(t) = Moved(GM(E), TurnIdx)
  /\ GM(m) = Moved(GM(E), MirrorIdx)
  /\ GS(m) = Moved(GS(E), MirrorIdx)
  /\ GS(t) = Moved(GS(E), TurnIdx)
\* on level ground, all but a border
Inside(n) == {i \in 1..(NX * NZ * B * B) : LET x == XOf(E, i)  z == ZOf(E, i) IN x >= n /\ x < NX * B - n /\ z >= n /\ z < NZ * B - n}
Plain == Full /\ (\A i \in DOMAIN blocks : Len(blocks[i]) = 1 /\ blocks[i] = blocks[1]) =>
  /\ GM(E) = {<<i, 1>> : i \in Inside(r)}
  /\ GS(E) = {<<i, 1>> : i \in Inside(r + 2)}

Replay == Full => PrintT("EDGE " \o ToString(<<NX, c, blocks>>))
==============================================================================
