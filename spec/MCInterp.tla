------------------------------ MODULE MCInterp -------------------------------
EXTENDS Interp, Json
MCTicks == {0, 1, 2, 4, 8}
MCValues == {0, 3}
Emit == taken = <<>> \/ PrintT("CASE " \o ToJson([series |-> taken]))
=============================================================================
