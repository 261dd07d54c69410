-------------------------------- MODULE Indep --------------------------------
(* Design of query objects (C21): a mesh that queries only read, objects     *)
(* with scratch space that every search clears before it starts.  A search   *)
(* may be sliced; other queries of the same object that use no scratch may   *)
(* come between, other objects do anything.  TLC checks that every result is *)
(* that of the query alone; the interleavings are replayed into the code.    *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Objects, Queries, Steps,   \* Steps: what a search takes
          MaxOps

VARIABLES scratch,  \* of each object: the work done, as a sequence of queries
          run,      \* the sliced search in progress: query or 0
          out,      \* results: <<query, result>>
          hist
vars == <<scratch, run, out, hist>>
view == <<scratch, run, out>>

Init == /\ scratch = [o \in Objects |-> <<>>] /\ run = [o \in Objects |-> 0]
        /\ out = {} /\ hist = <<>>

Work(q, n) == [i \in 1..n |-> q]
Result(q) == Work(q, Steps)   \* of the query alone

Op(o, what, q) == hist' = Append(hist, <<o, what, q>>)

\* a search in one call; not while a sliced one is in progress
Find(o, q) == /\ run[o] = 0 /\ Op(o, "find", q)
              /\ scratch' = [scratch EXCEPT ![o] = Work(q, Steps)]
              /\ out' = out \cup {<<q, scratch'[o]>>}
              /\ UNCHANGED run
\* a query that needs no scratch
Look(o, q) == /\ Op(o, "look", q) /\ UNCHANGED <<scratch, run, out>>
Start(o, q) == /\ Op(o, "init", q)
               /\ run' = [run EXCEPT ![o] = q]
               /\ scratch' = [scratch EXCEPT ![o] = <<>>]
               /\ UNCHANGED out
Slice(o) == /\ run[o] # 0 /\ Len(scratch[o]) < Steps /\ Op(o, "step", run[o])
            /\ scratch' = [scratch EXCEPT ![o] = Append(@, run[o])]
            /\ UNCHANGED <<run, out>>
End(o) == /\ run[o] # 0 /\ Len(scratch[o]) = Steps /\ Op(o, "fin", run[o])
          /\ run' = [run EXCEPT ![o] = 0]
          /\ out' = out \cup {<<run[o], scratch[o]>>}
          /\ UNCHANGED scratch

Next == Len(hist) < MaxOps /\ \E o \in Objects :
          \/ Slice(o) \/ End(o)
          \/ \E q \in Queries : Find(o, q) \/ Look(o, q) \/ Start(o, q)
Spec == Init /\ [][Next]_vars

Alone == \A x \in out : x[2] = Result(x[1])

Edges == PrintT("EDGE " \o ToString(hist'))
==============================================================================
