------------------------------- MODULE MCLiquid -------------------------------
EXTENDS Liquid, Json, TLC
MCPaths == {1, 5, 11, 25, 61}
Emit == added # 0 \/ PrintT("CASE " \o ToJson([liquid |-> liquid, echo |-> echo, lwp |-> lwp]))
=============================================================================
