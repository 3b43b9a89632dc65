---------------------------- MODULE MCCloudLayers -----------------------------
EXTENDS CloudLayers, Json, TLC, SequencesExt
Emit == todo # mask \/ PrintT("CASE " \o ToJson([mask |-> [t \in 1..NTimes |-> [z \in 1..NGates |-> IF <<t, z>> \in mask THEN 1 ELSE 0]], size |-> MaxSize]))
=============================================================================
