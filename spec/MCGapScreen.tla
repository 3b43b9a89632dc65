------------------------------ MODULE MCGapScreen ------------------------------
EXTENDS GapScreen, TLC, Json
Emit == pc # 1 \/ extra # {} \/ model # 1..NBins \/ PrintT("CASE " \o ToJson([radar |-> [i \in 1..NBins |-> i \in radar], lidar |-> [i \in 1..NBins |-> i \in lidar]]))
=============================================================================
