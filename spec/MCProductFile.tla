---------------------------- MODULE MCProductFile ----------------------------
EXTENDS ProductFile, TLC, Json
Emit == pc \notin {"done", "error"} \/ PrintT("CASE " \o ToJson([n |-> n, own |-> [x \in Own |-> computed[x]], source |-> source, keys |-> keys, end |-> pc]))
=============================================================================
