------------------------------ MODULE MCAppend ------------------------------
EXTENDS Append, Json
Emit == Len(hist) <= Steps \/ PrintT("CASE " \o ToJson([hist |-> hist, file |-> file, ret |-> ret]))
=============================================================================
