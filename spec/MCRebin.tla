------------------------------- MODULE MCRebin -------------------------------
EXTENDS Rebin, Json, TLC
(* bins [0,4) and [4,8); ticks before, inside, on the edges and behind       *)
MCTicks == {-1, 0, 2, 3, 4, 7, 8}
MCValues == {0, 3}
Emit == series = <<>> \/ PrintT("CASE " \o ToJson([series |-> series]))
=============================================================================
