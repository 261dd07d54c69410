------------------------------- MODULE Cli_trace -------------------------------
(* C36: recorded calls of the real tool in a directory.  Every event carries *)
(* what all files are afterwards.  Paths are seen through links: "real" is   *)
(* the file a name stands for.                                               *)
EXTENDS TraceKit
C == INSTANCE Cli WITH Full <- TRUE, fs <- s, last <- s, res <- s

TSStart(e) == e.files

Full(st, e) == e.files = st

TSStep(st, e) ==
  IF e.ev # "Call" THEN {}
  ELSE
  LET o == [e EXCEPT !.out = e.real, !.cfg = e.realcfg]
      \* names that are in no directory (or are one) can not be written
      bad == o.out \notin DOMAIN st
      dev == o.out = "/dev/full"
      r == IF e.cmd = "infos" \/ ~bad THEN C!Call(st, o)
           ELSE [fs |-> st, res |-> "failed"]
  IN If(/\ JudgeV({"C36"}, "files", DOMAIN e.files = DOMAIN r.fs /\ \A p \in DOMAIN r.fs : e.files[p] = r.fs[p],
                  [p \in {q \in DOMAIN r.fs \cap DOMAIN e.files : e.files[q] # r.fs[q]} |-> <<r.fs[p], e.files[p]>>])
        /\ JudgeV({"C36"}, "reported as done", (r.res = "done") => e.exit = 0, <<r.res, e.exit, e.out>>)
        /\ JudgeV({"C36"}, "reported as not done", (r.res \in {"failed", "declined"}) => ~e.claims, <<r.res, e.exit>>)
        /\ JudgeV({"C36"}, "crash", ~e.crash, e.exit)
        /\ JudgeV({"C36"}, "infos", (e.cmd = "infos" /\ r.res = "done") => e.infos = e.params, <<e.infos, e.params>>),
        r.fs)
================================================================================
