----------------------------- MODULE TileSlots ------------------------------
(* How a navigation mesh stores tiles: a fixed number of slots, each with a  *)
(* counter ("salt") that becomes part of the references to what the slot     *)
(* holds.  Checked by TLC: whatever the history, lookups by position and by  *)
(* reference agree with which tiles are present, a reference resolves        *)
(* exactly as long as its tile is present, a failed operation changes        *)
(* nothing, and the number of tiles that fit never changes.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Slots,          \* set of slot numbers 0..n-1
          Positions,      \* grid positions
          SaltMax,        \* salts are 1..SaltMax and wrap around
          KeepCounter,    \* a slot does not issue a salt twice because an old one was restored
          MaxOps

VARIABLES salt,   \* slot -> salt of its present, or else its next, tile
          pend,   \* slot -> salt the next fresh tile must get at least (0: no demand)
          occ,    \* slot -> position of the tile it holds, or NoPos
          \* history, for the properties only
          issued, \* sequence of references issued so far <<slot, salt>>
          owner,  \* reference -> number of the tile instance it was last issued for
          holds,  \* slot -> number of the tile instance it holds (0: none)
          n,      \* number of instances so far
          hist    \* the operations so far

vars == <<salt, pend, occ, issued, owner, holds, n, hist>>
view == <<salt, pend, occ, issued, owner, holds>>
NoPos == "-"

Ref(sl) == <<sl, salt[sl]>>
Free == {sl \in Slots : occ[sl] = NoPos}
Present == Slots \ Free
Valid(r) == occ[r[1]] # NoPos /\ salt[r[1]] = r[2]

Init ==
  /\ salt = [sl \in Slots |-> 1]
  /\ pend = [sl \in Slots |-> 0]
  /\ occ = [sl \in Slots |-> NoPos]
  /\ issued = <<>>
  /\ owner = <<>>
  /\ holds = [sl \in Slots |-> 0]
  /\ n = 0
  /\ hist = <<>>

Taken(p) == \E sl \in Slots : occ[sl] = p

Note(op) == hist' = Append(hist, op)
Unchanged == UNCHANGED <<salt, pend, occ, issued, owner, holds, n>>

Issue(sl, r) ==
  /\ issued' = IF r \in {issued[i] : i \in 1..Len(issued)} THEN issued ELSE Append(issued, r)
  /\ owner' = (r :> (n + 1)) @@ owner
  /\ holds' = [holds EXCEPT ![sl] = n + 1]
  /\ n' = n + 1

\* add a tile at a free position: any free slot may be used
AddFresh(p) ==
  /\ Note(<<"add", p>>)
  /\ IF Taken(p) \/ Free = {} THEN Unchanged
     ELSE \E sl \in Free :
            /\ occ' = [occ EXCEPT ![sl] = p]
            /\ UNCHANGED <<salt, pend>>
            /\ Issue(sl, Ref(sl))

\* put a tile back under the i-th reference issued
Restore(p, i) ==
  /\ Note(<<"restore", p, i>>)
  /\ LET sl == issued[i][1] IN
     IF Taken(p) \/ occ[sl] # NoPos THEN Unchanged
     ELSE /\ occ' = [occ EXCEPT ![sl] = p]
          /\ salt' = [salt EXCEPT ![sl] = issued[i][2]]
          /\ pend' = IF KeepCounter THEN [pend EXCEPT ![sl] = salt[sl]] ELSE pend
          /\ Issue(sl, issued[i])

Next1(x) == (x % SaltMax) + 1

Remove(i) ==
  /\ Note(<<"remove", i>>)
  /\ LET r == issued[i]  sl == r[1] IN
     IF ~Valid(r) THEN Unchanged
     ELSE /\ occ' = [occ EXCEPT ![sl] = NoPos]
          /\ salt' = [salt EXCEPT ![sl] = IF pend[sl] > salt[sl] THEN pend[sl] ELSE Next1(salt[sl])]
          /\ pend' = [pend EXCEPT ![sl] = 0]
          /\ holds' = [holds EXCEPT ![sl] = 0]
          /\ UNCHANGED <<issued, owner, n>>

\* wrong data, or a reference that names nothing
AddBad(p)  == Note(<<"bad", p>>) /\ Unchanged

Next ==
  \/ \E p \in Positions : AddFresh(p)
  \/ \E p \in Positions, i \in 1..Len(issued) : Restore(p, i)
  \/ \E i \in 1..Len(issued) : Remove(i)
  \/ \E p \in Positions : AddBad(p)

Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
\* (as long as no salt has wrapped around)
NoWrap == \A i \in 1..Len(issued) : issued[i][2] < SaltMax

OnePerPosition == \A a, b \in Present : a # b => occ[a] # occ[b]

\* a reference resolves exactly as long as the tile it was last issued for is
\* present, and then to that tile
RefsExact ==
  NoWrap => \A i \in 1..Len(issued) :
              LET r == issued[i] IN
              /\ Valid(r) <=> \E sl \in Slots : holds[sl] = owner[r]
              /\ Valid(r) => holds[r[1]] = owner[r]

NeverNull == \A sl \in Slots : salt[sl] \in 1..SaltMax

\* a fresh tile never gets a reference that was issued before
FreshRefs ==
  NoWrap => \A sl \in Free : Ref(sl) \notin {issued[i] : i \in 1..Len(issued)}

Capacity == \A p \in Positions : ~Taken(p) /\ Cardinality(Present) < Cardinality(Slots) => Free # {}

\* what fails changes nothing; what succeeds touches one slot
OneSlot == [][\A a, b \in Slots : a # b => (occ'[a] = occ[a] \/ occ'[b] = occ[b])]_vars

Bound == Len(hist) < MaxOps

\* one schedule per transition of the state graph, for replay into the code
\* (states are identified by `view', so each is reached by one history)
Edges == PrintT("EDGE " \o ToString(hist'))
=============================================================================
