-------------------------------- MODULE MCRain --------------------------------
EXTENDS Rain, Sequences, TLC, Json
Emit == rain = Unknown \/ PrintT("CASE " \o ToJson([echo |-> echo, disdrometer |-> disdrometer, weather |-> weather, warm |-> warm, rain |-> rain]))
=============================================================================
