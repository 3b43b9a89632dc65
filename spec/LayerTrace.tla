------------------------------- MODULE LayerTrace ------------------------------
(* Judges the droplet bits of one profile of a categorize product.           *)
(*  k: backscatter in units of 2^-30 m-1 sr-1 (0 missing);  dz               *)
(*  z, frz, drop: 1 where there is a radar echo / freezing / droplets        *)
(*  tw: wet-bulb temperature (mK)                                            *)
(*  wa, ta, wb, tb: nearest water paths (mg m-2, not zero) before and after  *)
(*  the profile and how far they are (bins); FILL if there is none           *)
EXTENDS TraceBase, LiquidLayers
T0 == 273155
N(e) == Len(e.k)
B(s) == [i \in 1..Len(s) |-> s[i] = 1]
(* water path is not negative, interpolated over missing values *)
Positive(e) ==
    IF e.wa = FILL /\ e.wb = FILL THEN TRUE
    ELSE IF e.wa = FILL THEN e.wb > 0
    ELSE IF e.wb = FILL \/ e.ta = 0 THEN e.wa > 0
    ELSE IF e.tb = 0 THEN e.wb > 0
    ELSE e.wa * e.tb + e.wb * e.ta > 0
Sign(e) == e.wa # FILL /\ e.wb # FILL /\ e.ta # 0 /\ e.tb # 0 /\ Abs(e.wa * e.tb + e.wb * e.ta) <= e.ta + e.tb
Cold(e, i) == e.tw[i] < T0 - 38000
NearCold(e) == \E i \in 1..N(e) : Abs(e.tw[i] - (T0 - 38000)) <= 15
Want(e, slack) == IF ~Positive(e) THEN {} ELSE {i \in Corrected(Layers(e.k, e.dz, slack), B(e.z), B(e.frz), e.dz) : ~Cold(e, i)}
Judge(e) ==
    C("PROCESSED", e.status = "ok")
    \cup IF e.status # "ok" THEN {} ELSE
    LET got == {i \in 1..N(e) : e.drop[i] = 1}
        sure == Want(e, 1)
    IN IF Sign(e) \/ NearCold(e) \/ sure # Want(e, -1) THEN {}   \* too close to a limit to tell
       ELSE C("LAYER_FOUND", sure \subseteq got) \cup C("NO_OTHER_DROPLETS", got \subseteq sure)
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
