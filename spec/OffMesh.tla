------------------------------- MODULE OffMesh -------------------------------
(* Design of off-mesh connections (C08): a connection is stored in the tile  *)
(* its start lies in.  Its start is attached when that tile arrives, its end *)
(* when the tile it ends in is present: whichever of the two arrives last    *)
(* makes the attachment.  TLC checks that what can be traversed depends only *)
(* on which tiles are present.                                               *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Tiles, Cons   \* Cons: records [s, at, e, bi]: start tile, start has
                        \* ground, tiles in which the end has ground, two-way

VARIABLES present, links, hist
vars == <<present, links, hist>>
view == <<present, links>>

\* a link is [t, from, to, con]: held by tile t; its ends are <<"ground", tile>>
\* at the start, <<"end", tile>> at the end, or <<"off", tile>>, the connection
Off(c) == <<"off", c.s>>
Start(c) == {[t |-> c.s, from |-> <<"ground", c.s>>, to |-> Off(c), con |-> c],
             [t |-> c.s, from |-> Off(c), to |-> <<"ground", c.s>>, con |-> c]}
End(c, b) == {[t |-> c.s, from |-> Off(c), to |-> <<"end", b>>, con |-> c]}
             \cup IF c.bi THEN {[t |-> b, from |-> <<"end", b>>, to |-> Off(c), con |-> c]} ELSE {}

Expected == UNION {IF c.s \in present /\ c.at
                   THEN Start(c) \cup UNION {End(c, b) : b \in c.e \cap present}
                   ELSE {} : c \in Cons}

Init == present = {} /\ links = {} /\ hist = <<>>

Add(t) ==
  /\ t \notin present
  /\ present' = present \cup {t}
  /\ hist' = Append(hist, <<"add", t>>)
  /\ LET base == UNION {Start(c) : c \in {c \in Cons : c.s = t /\ c.at}}
         own == UNION {End(c, t) : c \in {c \in Cons : c.s = t /\ c.at /\ t \in c.e}}
         \* connections of this tile that end in a present one
         out == UNION {UNION {End(c, b) : b \in (c.e \cap present) \ {t}} : c \in {c \in Cons : c.s = t /\ c.at}}
         \* connections of present tiles that end here
         in == UNION {End(c, t) : c \in {c \in Cons : c.s \in present /\ c.at /\ t \in c.e}}
     IN links' = links \cup base \cup own \cup out \cup in

Ends(l) == {l.t, l.from[2], l.to[2]}

Remove(t) ==
  /\ t \in present
  /\ present' = present \ {t}
  /\ hist' = Append(hist, <<"remove", t>>)
  /\ links' = {l \in links : t \notin Ends(l)}

Next == \E t \in Tiles : Add(t) \/ Remove(t)
Spec == Init /\ [][Next]_vars

Function == links = Expected
OneWay == \A l \in links : l.to[1] = "off" /\ l.from[1] = "end" => l.con.bi
Nothing == \A l \in links : Ends(l) \subseteq present

MCTiles == 1..4
MCCons == [s : 1..2, at : BOOLEAN, e : {{}, {1}, {2}, {2, 3}, {4}}, bi : BOOLEAN]
Edges == PrintT("EDGE " \o ToString(hist'))
=============================================================================
