------------------------------ MODULE NodePool -------------------------------
(* Design of the pool of search nodes (C22): nodes are handed out in order   *)
(* and found again through chains that start in a hash table.  TLC checks    *)
(* that this behaves like a map from (polygon, state) to nodes.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Ids, States, Max, Buckets, MaxOps

VARIABLES first, next, node, count,   \* the pool
          map,                        \* what it stands for
          got,                        \* result of the last operation
          hist
vars == <<first, next, node, count, map, got, hist>>
view == <<first, next, node, count, map>>

Hash(i) == i % Buckets
None == 0

Init ==
  /\ first = [b \in 0..(Buckets - 1) |-> None] /\ next = [n \in 1..Max |-> None]
  /\ node = [n \in 1..Max |-> <<0, 0>>] /\ count = 0
  /\ map = <<>> /\ got = None /\ hist = <<>>

RECURSIVE Walk(_, _)
Walk(n, k) == IF n = None THEN None ELSE IF node[n] = k THEN n ELSE Walk(next[n], k)
RECURSIVE Chain(_)
Chain(n) == IF n = None THEN <<>> ELSE <<n>> \o Chain(next[n])
Find(k) == Walk(first[Hash(k[1])], k)
All(i) == SelectSeq(Chain(first[Hash(i)]), LAMBDA n : node[n][1] = i)

Get(k) ==
  /\ hist' = Append(hist, <<"get", k[1], k[2]>>)
  /\ IF Find(k) # None THEN got' = Find(k) /\ UNCHANGED <<first, next, node, count, map>>
     ELSE IF count >= Max THEN got' = None /\ UNCHANGED <<first, next, node, count, map>>
     ELSE /\ count' = count + 1
          /\ node' = [node EXCEPT ![count + 1] = k]
          /\ next' = [next EXCEPT ![count + 1] = first[Hash(k[1])]]
          /\ first' = [first EXCEPT ![Hash(k[1])] = count + 1]
          /\ map' = [x \in DOMAIN map \cup {k} |-> IF x = k THEN count + 1 ELSE map[x]]
          /\ got' = count + 1

Clear ==
  /\ hist' = Append(hist, <<"clear">>)
  /\ first' = [b \in DOMAIN first |-> None] /\ count' = 0 /\ map' = <<>> /\ got' = None
  /\ UNCHANGED <<next, node>>

K == Ids \X States
Next == Len(hist) < MaxOps /\ (Clear \/ \E k \in K : Get(k))
Spec == Init /\ [][Next]_vars

Represents ==
  /\ \A k \in K : Find(k) = IF k \in DOMAIN map THEN map[k] ELSE None
  /\ \A i \in Ids : {map[k] : k \in {k \in DOMAIN map : k[1] = i}} = {All(i)[j] : j \in 1..Len(All(i))}
  /\ \A i \in Ids : Len(All(i)) = Cardinality({k \in DOMAIN map : k[1] = i})
OneToOne == \A j, k \in DOMAIN map : map[j] = map[k] => j = k
Full == Cardinality(DOMAIN map) = count /\ count <= Max

Edges == PrintT("EDGE " \o ToString(hist'))
==============================================================================
