----------------------------- MODULE FileStream -----------------------------
(* Design of reading and writing a navigation mesh file (C05, C06): a file   *)
(* is a sequence of records - the set header, and a header and a body for    *)
(* every tile - sent through a stream that may deliver any part of what is   *)
(* asked for, and may end or fail at any position.                           *)
(*                                                                           *)
(* Positions count half records, so that a stream can end in the middle of a *)
(* record as well as between two.                                            *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Tiles,     \* number of tiles in the file
          Whole      \* readers insist on whole records (FALSE: one read each)

Records == 1 + 2 * Tiles
Total == 2 * Records           \* two units a record

VARIABLES cut,    \* the stream delivers this many units
          fail,   \* and then fails (TRUE) or ends (FALSE)
          pos,    \* units delivered
          rec,    \* record being read
          got,    \* units of it that were read
          tiles,  \* tiles added to the mesh being built
          bad,    \* a tile was added from an incomplete body
          res,    \* "run", "ok", "error"
          hist    \* sizes delivered, to replay
vars == <<cut, fail, pos, rec, got, tiles, bad, res, hist>>

Init == /\ cut \in 0..Total /\ fail \in BOOLEAN
        /\ pos = 0 /\ rec = 1 /\ got = 0 /\ tiles = 0 /\ bad = FALSE /\ res = "run" /\ hist = <<>>

\* the record is complete (or taken to be): go on to the next one
Take(g) ==
  /\ tiles' = IF rec > 1 /\ rec % 2 = 1 THEN tiles + 1 ELSE tiles
  /\ bad' = (bad \/ g < 2)
  /\ got' = 0 /\ rec' = rec + 1
  /\ res' = IF rec = Records THEN "ok" ELSE "run"

Read ==
  /\ res = "run" /\ pos < cut
  /\ \E n \in 1..(2 - got) :
       /\ pos + n <= cut
       /\ pos' = pos + n
       /\ hist' = Append(hist, n)
       /\ LET g == got + n IN
          IF g = 2 \/ (~Whole /\ rec > 1 /\ rec % 2 = 1)
          THEN Take(g)
          ELSE got' = g /\ UNCHANGED <<rec, tiles, bad, res>>
  /\ UNCHANGED <<cut, fail>>

Stop ==  \* end or failure of the stream
  /\ res = "run" /\ pos = cut
  /\ res' = "error"
  /\ UNCHANGED <<cut, fail, pos, rec, got, tiles, bad, hist>>

Next == Read \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OkMeansAll == res = "ok" => pos = Total /\ tiles = Tiles /\ ~bad
ErrorMeansCut == res = "error" => cut < Total
Decided == <>(res # "run")

Edges == (res' # "run" => PrintT("EDGE " \o ToString(<<cut, IF fail THEN 1 ELSE 0, IF res' = "ok" THEN 1 ELSE 0, hist'>>)))
=============================================================================
