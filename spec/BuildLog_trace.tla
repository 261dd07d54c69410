---------------------------- MODULE BuildLog_trace -----------------------------
(* C34: recorded use of a build context.  Times are in microseconds; a call  *)
(* of StartTimer or StopTimer happens somewhere between e.t0 and e.t1.       *)
EXTENDS TraceKit

Room == 1000
NT == 30
Idle == [on |-> FALSE, maybe |-> FALSE, s0 |-> 0, s1 |-> 0, used |-> FALSE, lo |-> 0, hi |-> 0]

TSStart(e) == [logOn |-> e.state, tOn |-> e.state, msgs |-> <<>>, t |-> [k \in 0..(NT - 1) |-> Idle]]

Prefix(cat) == CASE cat = "progress" -> "PROG " [] cat = "warning" -> "WARN " [] OTHER -> "ERR "

\* on: the timer runs; maybe: it was running when timers were reset
Stopped(x, e) ==
  IF ~x.on THEN x
  ELSE LET lo == Max2(0, e.t0 - x.s1)  hi == e.t1 - x.s0 IN
       IF x.maybe THEN [x EXCEPT !.on = FALSE, !.hi = @ + hi]
       ELSE [x EXCEPT !.on = FALSE, !.used = TRUE, !.lo = @ + lo, !.hi = @ + hi]

Call(st, e) ==
  CASE e.op = "log" -> IF st.logOn /\ Len(st.msgs) < Room THEN [st EXCEPT !.msgs = Append(@, Prefix(e.cat) \o e.text)] ELSE st
    [] e.op = "logs" -> IF st.logOn THEN [st EXCEPT !.msgs = @ \o [i \in 1..Min2(e.n, Room - Len(@)) |-> Prefix(e.cat) \o e.text]] ELSE st
    [] e.op = "resetlog" -> IF st.logOn THEN [st EXCEPT !.msgs = <<>>] ELSE st
    [] e.op = "enablelog" -> [st EXCEPT !.logOn = e.state]
    [] e.op = "enabletimer" -> [st EXCEPT !.tOn = e.state]
    [] e.op = "start" -> IF st.tOn THEN [st EXCEPT !.t[e.label] = [@ EXCEPT !.on = TRUE, !.maybe = FALSE, !.s0 = e.t0, !.s1 = e.t1]] ELSE st
    [] e.op = "stop" -> IF st.tOn THEN [st EXCEPT !.t[e.label] = Stopped(@, e)] ELSE st
    [] e.op = "resettimers" -> IF st.tOn THEN [st EXCEPT !.t = [k \in DOMAIN st.t |-> [st.t[k] EXCEPT !.maybe = st.t[k].on, !.used = FALSE, !.lo = 0, !.hi = 0]]] ELSE st

\* what is read: times in microseconds (rounded down), -1 for none
TimeOk(st, k, a) ==
  LET x == st.t[k] IN
  IF ~st.tOn THEN a = -1
  ELSE IF x.used THEN x.lo - 1 <= a /\ a <= x.hi + 1
  ELSE a = -1 \/ (x.hi > 0 /\ 0 <= a /\ a <= x.hi + 1)

Op(st, e) ==
  LET n == Call(st, e) IN
  If(/\ JudgeV({"C34"}, "number of messages", e.count = Len(n.msgs), <<e.count, Len(n.msgs)>>)
     /\ JudgeV({"C34"}, "last messages", \A i \in DOMAIN e.last : e.last[i] = n.msgs[Len(n.msgs) - Len(e.last) + i], e.last)
     /\ \A k \in DOMAIN n.t : JudgeV({"C34"}, "time", TimeOk(n, k, e.acc[k + 1]), <<k, e.acc[k + 1], n.t[k], n.tOn>>),
     n)

Dump(st, e) ==
  If(/\ JudgeV({"C34"}, "dump", e.lines = <<e.header>> \o st.msgs, <<Len(e.lines), Len(st.msgs)>>)
     /\ JudgeV({"C34"}, "texts", e.texts = st.msgs, <<Len(e.texts), Len(st.msgs)>>), st)

\* a build step: leaves no timer running, times are those of the step
Build(st, e) ==
  LET Starts(m) == \E c \in {"PROG ", "WARN ", "ERR "} : Len(m) >= Len(c) /\ SubSeq(m, 1, Len(c)) = c
      New == SubSeq(e.texts, Len(st.msgs) + 1, Len(e.texts))
      span == e.t1 - e.t0
      Ok(k) == LET x == st.t[k]  a == e.acc[k + 1]  b == e.acc2[k + 1] IN
        /\ JudgeV({"C34"}, "timer left running", a = b, <<e.what, k, a, b>>)
        /\ IF ~st.tOn THEN JudgeV({"C34"}, "no time while switched off", a = -1, <<e.what, k, a>>)
           ELSE /\ JudgeV({"C34"}, "time of the step", a = -1 \/ (x.lo - 1 <= a /\ a <= x.hi + span + 1), <<e.what, k, a, x, span>>)
                /\ JudgeV({"C34"}, "step is timed", k = e.label => a >= 0, <<e.what, k, a>>)
                /\ JudgeV({"C34"}, "nothing lost", x.used => a >= 0, <<e.what, k, a>>)
  IN If(/\ JudgeV({"C34"}, "messages before", Len(e.texts) >= Len(st.msgs) /\ \A i \in DOMAIN st.msgs : e.texts[i] = st.msgs[i], e.what)
        /\ JudgeV({"C34"}, "no messages while switched off", st.logOn \/ New = <<>>, <<e.what, New>>)
        /\ JudgeV({"C34"}, "categories", \A i \in DOMAIN New : Starts(New[i]), <<e.what, New>>)
        /\ JudgeV({"C34"}, "failure is logged", (~e.ok /\ st.logOn) => \E i \in DOMAIN New : SubSeq(New[i], 1, 4) \in {"ERR ", "WARN"}, <<e.what, New>>)
        /\ \A k \in DOMAIN st.t : Ok(k),
        [st EXCEPT !.msgs = e.texts,
                   !.t = [k \in DOMAIN st.t |-> IF e.acc[k + 1] < 0 THEN st.t[k] ELSE [st.t[k] EXCEPT !.used = TRUE, !.lo = e.acc[k + 1], !.hi = e.acc[k + 1] + 1]]])

TSStep(st, e) ==
  CASE e.ev = "Op" -> Op(st, e)
    [] e.ev = "Dump" -> Dump(st, e)
    [] e.ev = "Build" -> Build(st, e)
    [] OTHER -> {}
==============================================================================
