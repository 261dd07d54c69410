------------------------------ MODULE Ramp_trace ------------------------------
(* C38: meshes of ramps between two platforms.  The ramp is len cells (two     *)
(* voxels) long and rises so many voxels; the climb is more than it rises in a *)
(* few cells, and all is wider than the agent.                                 *)
EXTENDS TraceKit, Slope

TSStart(e) ==
  LET a == <<0, 0, 0>>  b == <<0, 0, 1>>  c == <<2 * e.len, e.rise, 0>> IN
  [yes |-> Below(a, b, c, e.k), no |-> NotBelow(a, b, c, e.k), below |-> <<e.len, e.rise, Angles[e.k]>>]

Ramp(st, e) ==
  If(/\ Chk("built", e.ok)
     /\ ChkV("platforms are walkable", e.on[1] /\ e.on[3], e.on)
     /\ st.yes => ChkV("the ramp is walkable", e.on[2] /\ e.up /\ e.down, <<st.below, e.on, e.up, e.down>>)
     /\ st.no => ChkV("the ramp is too steep", ~e.on[2] /\ ~e.up /\ ~e.down, <<st.below, e.on, e.up, e.down>>), st)

TSStep(st, e) ==
  CASE e.ev = "Ramp" -> Ramp(st, e)
    [] OTHER -> {}
===============================================================================
