-------------------------- MODULE DayScreenTrace ----------------------------
(* Judges conversions of raw files made by the real instrument readers.      *)
EXTENDS TraceBase
(* time stamps are counted in e.ticks parts of a second                     *)
D(day) == INSTANCE DayScreen WITH Day <- day, Times <- {}, MaxRows <- 0, MinProfiles <- 0,
        raw <- <<>>, work <- <<>>, stage <- ""

Names(e) == DOMAIN e.vars
Judge(e) ==
    LET ts == D(e.ticks * 86400)!Asc(D(e.ticks * 86400)!Stamps(e.rows))
        n == Len(ts)
    IN IF n < e.minprof
       THEN C("NO_DATA_IS_AN_ERROR", e.status \in {e.errs[i] : i \in 1..Len(e.errs)})
            \cup C("NO_PRODUCT_ON_FAILURE", ~e.exists)
       ELSE IF e.status # "ok" THEN {"CONVERSION_FAILED"}
       ELSE C("INCREASING_TIME", \A i \in 1..(Len(e.time) - 1) : e.time[i] < e.time[i + 1])
            \cup C("EXACT_PROFILES", e.time = ts)
            \cup C("LENGTHS", \A v \in Names(e) : Len(e.vars[v]) = Len(e.time))
            \cup (IF e.time = ts /\ \A v \in Names(e) : Len(e.vars[v]) = n
                  THEN C("ALIGNED", \A i \in 1..n : \E r \in D(e.ticks * 86400)!Usable(e.rows) :
                            r.t = ts[i] /\ \A v \in Names(e) : e.vars[v][i] = r.k)
                  ELSE {})
            \cup C("AXES_UNCHANGED", e.axes_in = e.axes_out)
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
