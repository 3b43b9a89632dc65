------------------------------- MODULE RainTrace ------------------------------
(* Judges the rain flag of one profile of a categorize product.              *)
(*  gates: 1 where the scene has any radar echo in that gate                 *)
(*  z, v, x: reflectivity, velocity and (slanted) linear depolarisation      *)
(*  ratio of the profile (mdB, mm/s; FILL missing; x = <<>> not measured)    *)
(*  dis: disdrometer used; rate: um h-1, np: particles (FILL missing)        *)
(*  wawa: present weather code (FILL missing, -1 not measured)               *)
(*  want: decision of Rain.tla for the same evidence (-1: none)              *)
(*  tw: wet-bulb temperature of the lowest gate (mK); 0 degC may be 273.15 or  *)
(*  273.16 K                                                                  *)
EXTENDS TraceBase
First(e) == LET S == {i \in 1..Len(e.gates) : e.gates[i] = 1} IN IF S = {} THEN 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
(* heavy enough falling echo without depolarisation three gates above the lowest one with data *)
EchoAt(e, t) == LET g == Min2(First(e) + 3, Len(e.z)) IN
    /\ e.z[g] # FILL /\ e.z[g] > 3000 + t
    /\ e.v[g] # FILL /\ e.v[g] < -t
    /\ (e.x = <<>> \/ (IF e.x[g] = FILL THEN t < 0 ELSE e.x[g] < -15000 - t))   \* missing ratio: either way
DisdrometerKnows(e) == e.dis /\ e.rate # FILL /\ e.np # FILL
DisdrometerAt(e, t) == e.rate > 250 + t /\ e.np > (IF t < 0 THEN 29 ELSE 30)
LiquidAt(e, t) == IF e.wawa >= 0 THEN e.wawa >= 57 /\ e.wawa <= 68 ELSE e.tw > 278155 + 6 * t
RainAt(e, t) == (IF DisdrometerKnows(e) THEN DisdrometerAt(e, t) ELSE EchoAt(e, t)) /\ LiquidAt(e, t)
Judge(e) ==
    C("PROCESSED", e.status = "ok")
    \cup IF e.status # "ok" THEN {} ELSE
    C("FLAG", e.rain \in {0, 1})
    \cup C("RAIN_FLAGGED", RainAt(e, 2) => e.rain = 1)
    \cup C("AS_SPECIFIED", e.want # -1 => e.rain = e.want)
    \cup C("NOTHING_BUT_RAIN", e.rain = 1 => RainAt(e, -2))
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
