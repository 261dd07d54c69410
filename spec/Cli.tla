---------------------------------- MODULE Cli ----------------------------------
(* The command line tool (C36): what a call does to the files it may touch.  *)
(* Call(fs, o) gives the files after operation o and how it ended; it is used *)
(* by the model below and to judge recorded calls of the real tool.          *)
EXTENDS Naturals, Sequences, TLC

\* contents a path can have
Contents == {"none", "text", "csolo", "ctile", "msolo", "mtile"}

\* the overwrite question: lines given on standard input, then its end
Yes(ans) == ans \in {"y", "later y", "yes, no newline"}

Write(fs, p, new, ans) ==
  IF fs[p] = "none" \/ (Yes(ans) /\ fs[p] # "dir")
  THEN [fs |-> [fs EXCEPT ![p] = new], res |-> "done"]
  ELSE [fs |-> fs, res |-> IF Yes(ans) THEN "failed" ELSE "declined"]

Config(fs, o) ==
  IF o.type = "solo" THEN Write(fs, o.out, "csolo", o.ans)
  ELSE IF o.type = "tile" THEN Write(fs, o.out, "ctile", o.ans)
  ELSE [fs |-> fs, res |-> "failed"]

\* settings of solo meshes have no tile size: no tiles can be built with them
Mesh(type, c) == CASE type = "solo" /\ c \in {"csolo", "ctile"} -> "msolo"
                   [] type = "tile" /\ c = "ctile" -> "mtile"
                   [] OTHER -> "none"

Build(fs, o) ==
  LET m == IF o.cfg \in DOMAIN fs THEN Mesh(o.type, fs[o.cfg]) ELSE "none" IN
  IF m = "none" \/ o.geom # "good" THEN [fs |-> fs, res |-> "failed"]
  ELSE Write(fs, o.out, m, o.ans)

Infos(fs, o) == [fs |-> fs, res |-> IF o.out \in DOMAIN fs /\ fs[o.out] \in {"msolo", "mtile"} THEN "done" ELSE "failed"]

Call(fs, o) == CASE o.cmd = "config" -> Config(fs, o)
                 [] o.cmd = "build" -> Build(fs, o)
                 [] o.cmd = "infos" -> Infos(fs, o)
                 [] OTHER -> [fs |-> fs, res |-> "failed"]

\* ------------------------------------------------------------------- the model
CONSTANT Full
VARIABLES fs, last, res
vars == <<fs, last, res>>
P == {"recast.yml", "navmesh.bin"}
Answers == IF Full THEN {"y", "later y", "yes, no newline", "n", "enter", "none", "junk"} ELSE {"y", "n", "none"}
Ops ==
  {[cmd |-> "config", type |-> t, out |-> p, cfg |-> "", geom |-> "", ans |-> a] : t \in {"solo", "tile", "other"}, p \in P, a \in Answers}
  \cup {[cmd |-> "build", type |-> t, out |-> p, cfg |-> c, geom |-> g, ans |-> a] :
          t \in {"solo", "tile", "other"}, p \in P, c \in P \cup {"absent"}, g \in {"good", "absent", "broken", "not given"}, a \in Answers}
  \cup {[cmd |-> "infos", type |-> "", out |-> p, cfg |-> "", geom |-> "", ans |-> "none"] : p \in P \cup {"absent"}}

Init == fs \in [P -> {"none", "text"}] /\ last = [cmd |-> "", ans |-> "none", out |-> ""] /\ res = ""
Next == \E o \in Ops : LET r == Call(fs, o) IN fs' = r.fs /\ res' = r.res /\ last' = o
Spec == Init /\ [][Next]_vars
View == fs

Type == fs \in [P -> Contents]
\* a file that was there is replaced only with consent, by the call that was asked to
Consent == [][\A p \in P : (fs[p] # "none" /\ fs'[p] # fs[p]) => Yes(last'.ans) /\ last'.out = p /\ last'.cmd # "infos"]_vars
\* nothing is ever lost, and only what is reported done changes anything
Kept == [][\A p \in P : fs[p] # "none" => fs'[p] # "none"]_vars
Effects == [][fs' # fs => res' = "done"]_vars
\* a generated configuration is good for a build, a built mesh for the info command
Accepted == \A p \in P : \A q \in P \ {p} :
  /\ fs[p] = "csolo" => Call(fs, [cmd |-> "build", type |-> "solo", out |-> q, cfg |-> p, geom |-> "good", ans |-> "y"]).fs[q] = "msolo"
  /\ fs[p] = "ctile" => Call(fs, [cmd |-> "build", type |-> "tile", out |-> q, cfg |-> p, geom |-> "good", ans |-> "y"]).fs[q] = "mtile"
  /\ fs[p] \in {"msolo", "mtile"} => Call(fs, [cmd |-> "infos", out |-> p]).res = "done"
Edges == PrintT("EDGE " \o ToString(<<fs["recast.yml"], fs["navmesh.bin"], last'.cmd, last'.type, last'.out, last'.cfg, last'.geom, last'.ans>>))
================================================================================
