------------------------------ MODULE TraceKit ------------------------------
(* Validation of recorded executions.                                        *)
(*                                                                           *)
(* A trace file holds one JSON event per line.  An event "Begin" starts an   *)
(* independent trace; every later event must be a step the specification     *)
(* allows: Step(s, e) is the set of states the specification may be in after *)
(* the observed event e in state s - empty when the specification does not   *)
(* allow e at all.  Events carry their results, so there is at most one such *)
(* state.  A rejected event is reported (REJECT) and the rest of that trace  *)
(* is skipped, so that one run judges all traces of the file.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Start(_),     \* state after a Begin event
          Step(_, _)    \* states allowed after an event

VARIABLES l,     \* next line of the trace
          s,     \* state of the specification
          skip   \* the current trace has been rejected

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* which part of the specification this run is to judge ("all" by default)
Aspect == IF "ASPECT" \in DOMAIN IOEnv THEN IOEnv.ASPECT ELSE "all"

\* a named condition: says which one failed when an event is rejected
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name>>) /\ FALSE
ChkV(name, cond, v) == IF cond THEN TRUE ELSE PrintT(<<"WHY", name, v>>) /\ FALSE
\* a condition that is only judged under the given aspects
Judge(asp, name, cond) == IF Aspect = "all" \/ Aspect \in asp THEN Chk(name, cond) ELSE TRUE
JudgeV(asp, name, cond, v) == IF Aspect = "all" \/ Aspect \in asp THEN ChkV(name, cond, v) ELSE TRUE
If(ok, st) == IF ok THEN {st} ELSE {}

TKInit == l = 1 /\ s = [empty |-> 0] /\ skip = FALSE

TKNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "Begin"
     THEN skip' = FALSE /\ s' = Start(e)
     ELSE IF skip
     THEN UNCHANGED <<s, skip>>
     ELSE LET R == IF e.ev \in {"Panic", "Hang"} THEN {} ELSE Step(s, e) IN
          IF R = {}
          THEN PrintT(<<"REJECT", l, e.ev>>) /\ skip' = TRUE /\ s' = s
          ELSE /\ Assert(Cardinality(R) = 1, <<"ambiguous event", l>>)
               /\ skip' = FALSE /\ s' \in R

TKSpec == TKInit /\ [][TKNext]_<<l, s, skip>>

\* all lines were consumed
TKDone == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Trace)>>)

\* ------------------------------------------------------------- utilities
Range(f) == {f[x] : x \in DOMAIN f}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
SumSeq(q) == LET RECURSIVE F(_)
                 F(i) == IF i > Len(q) THEN 0 ELSE q[i] + F(i + 1)
             IN F(1)
RECURSIVE SumFn(_, _)
SumFn(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + SumFn(f, D \ {x})
Has(e, k) == k \in DOMAIN e
=============================================================================
