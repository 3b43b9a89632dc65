------------------------------- MODULE IceTrace -------------------------------
(* Judges one profile of an ice product (iwc or ier).                        *)
(*  c, q: bits; z: reflectivity (mdBZ, FILL missing); zerr: its error        *)
(*  (0.1 dB); temp: temperature (degC); rain: the rain variable of the       *)
(*  profile (0 none, FILL missing); band "Ka" or "W"                         *)
(*  val: log10 of the reported value x 10^5; status; err: log10(error) x 10^5*)
(*  for ier, error in mdB for iwc                                            *)
(* kind = "profile" | "sens" (the minimum detectable value of one gate) |    *)
(* "bias" | "band" (a radar band for which no relation exists)               *)
EXTENDS TraceBase, Pixels

(* coefficients of log10(x) = ZT z T + T t + Z z + c, times 10^6             *)
Coef(p, b) ==
    IF p = "iwc" THEN (IF b = "Ka" THEN [zt |-> 242, t |-> -18600, z |-> 69900, c |-> -1630000] ELSE [zt |-> 580, t |-> -7060, z |-> 92300, c |-> -992000])
    ELSE (IF b = "Ka" THEN [zt |-> -205, t |-> -1500, z |-> 1600, c |-> -1520000] ELSE [zt |-> -296, t |-> -1930, z |-> 0, c |-> -1502000])
(* 10 log10(|K|^2 / 0.93) in mdB                                             *)
Offset(b) == IF b = "Ka" THEN -250 ELSE -1430
(* g to kg; ice density to radius (3 / (2 * 917))                            *)
Scale(p) == IF p = "iwc" THEN -3000000 ELSE -2786278
(* predicted log10(value) x 10^6; z in mdBZ, t in degC / den                 *)
LogValue(p, b, z, t, den) ==
    LET k == Coef(p, b)
        zz == z + Offset(b)
    IN (((k.zt * zz) \div 1000) * t) \div den + (k.t * t) \div den + (k.z * (zz \div 10)) \div 100 + k.c + Scale(p)

IsRain(e) == e.rain # 0
HasZ(e, i) == e.z[i] # FILL
JudgeProfile(e) ==
    LET n == Len(e.c)
        rain == IsRain(e)
        value(i) == IceValue(e.c[i], e.q[i], HasZ(e, i))
        k == Coef(e.product, e.band)
    IN C("ONE_VALUE_PER_PIXEL", Len(e.val) = n /\ Len(e.status) = n /\ Len(e.err) = n)
       \cup IF ~(Len(e.val) = n /\ Len(e.status) = n /\ Len(e.err) = n) THEN {} ELSE
            C("VALUE_EXACTLY_IN_RELIABLE_ICE", \A i \in 1..n : value(i) <=> e.val[i] # FILL)
            \cup C("VALUE_FROM_OWN_Z_AND_T", \A i \in 1..n : (value(i) /\ e.val[i] # FILL) =>
                    Near(e.val[i] * 10, LogValue(e.product, e.band, e.z[i], e.temp[i], 1), 400))
            \cup C("STATUS", \A i \in 1..n : e.status[i] = IceStatus(e.c[i], e.q[i], rain, HasZ(e, i)))
            \cup C("ERROR_WHERE_VALUE", \A i \in 1..n : value(i) <=> e.err[i] # FILL)
            \cup C("ERROR_VALUE", \A i \in 1..n : (value(i) /\ e.err[i] # FILL) =>
                    IF e.product = "ier" THEN Near(e.err[i] - e.val[i], -24743, 5)
                    ELSE LET a == (e.zerr[i] * (k.zt * e.temp[i] + k.z)) \div 1000
                         IN Near(e.err[i] * e.err[i], 1700 * 1700 + a * a, 4 * e.err[i] + 2 * Abs(a)))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Judge(e) ==
    IF e.kind = "profile" THEN JudgeProfile(e)
    ELSE IF e.kind = "band" THEN C("UNSUPPORTED_BAND_IS_AN_ERROR", e.status # "ok")
    ELSE IF e.kind = "bias" THEN C("BIAS", Near(e.out, (e.zbias * Coef("iwc", e.band).z) \div 100, 3))
    ELSE C("SENSITIVITY", Near(e.out * 10, LogValue("iwc", e.band, e.z, SumSeq(e.temps), Len(e.temps)), 400))
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
