------------------------------ MODULE MCAccum -------------------------------
EXTENDS Accum, Json, TLC
Emit == Len(readings) # MaxLen \/ PrintT("CASE " \o ToJson([r |-> readings]))
=============================================================================
