---------------------------- MODULE MCDayScreen -----------------------------
EXTENDS DayScreen, Json, TLC
MCTimes == {-1, 0, 1, 43200, 86399, 86400}
Emit == stage # "read" \/ raw = <<>> \/ PrintT("CASE " \o ToJson([rows |-> raw]))
=============================================================================
