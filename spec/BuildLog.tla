------------------------------- MODULE BuildLog -------------------------------
(* The build context (C34): a log and timers that are switched on and off.   *)
(* Calls do nothing while switched off.                                      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxOps, Room

VARIABLES logOn, n, tOn, run, used, ops
vars == <<logOn, n, tOn, run, used, ops>>
T == 0..1
Init == /\ logOn \in BOOLEAN /\ tOn = logOn
        /\ n = 0 /\ run = [t \in T |-> FALSE] /\ used = [t \in T |-> FALSE]
        /\ ops = <<IF logOn THEN "new on" ELSE "new off">>
Do(o) == Len(ops) <= MaxOps /\ ops' = Append(ops, o)
Log(c) == Do(c) /\ n' = (IF logOn THEN (IF n < Room THEN n + 1 ELSE n) ELSE n) /\ UNCHANGED <<logOn, tOn, run, used>>
ResetLog == Do("resetlog") /\ n' = (IF logOn THEN 0 ELSE n) /\ UNCHANGED <<logOn, tOn, run, used>>
EnableLog(b) == Do(IF b THEN "log on" ELSE "log off") /\ logOn' = b /\ UNCHANGED <<n, tOn, run, used>>
EnableTimer(b) == Do(IF b THEN "timer on" ELSE "timer off") /\ tOn' = b /\ UNCHANGED <<logOn, n, run, used>>
StartT(t) == Do(IF t = 0 THEN "start 0" ELSE "start 1") /\ run' = (IF tOn THEN [run EXCEPT ![t] = TRUE] ELSE run) /\ UNCHANGED <<logOn, n, tOn, used>>
StopT(t) == /\ Do(IF t = 0 THEN "stop 0" ELSE "stop 1")
            /\ run' = (IF tOn THEN [run EXCEPT ![t] = FALSE] ELSE run)
            /\ used' = (IF tOn /\ run[t] THEN [used EXCEPT ![t] = TRUE] ELSE used)
            /\ UNCHANGED <<logOn, n, tOn>>
ResetTimers == Do("resettimers") /\ used' = (IF tOn THEN [t \in T |-> FALSE] ELSE used) /\ UNCHANGED <<logOn, n, tOn, run>>
Next == \/ \E c \in {"progress", "warning", "error"} : Log(c)
        \/ ResetLog \/ ResetTimers
        \/ \E b \in BOOLEAN : EnableLog(b) \/ EnableTimer(b)
        \/ \E t \in T : StartT(t) \/ StopT(t)
Spec == Init /\ [][Next]_vars
View == <<logOn, n, tOn, run, used>>

\* log and timers are independent, and nothing changes while switched off
Off == [][(~logOn /\ logOn' = logOn => n' = n) /\ (~tOn /\ tOn' = tOn => run' = run /\ used' = used)]_vars
Independent == [][(n' # n \/ logOn' # logOn) => UNCHANGED <<tOn, run, used>>]_vars
Bounded == n <= Room
Edges == PrintT("EDGE " \o ToString(ops'))
===============================================================================
