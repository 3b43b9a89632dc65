------------------------------ MODULE StatusTrace -----------------------------
(* Judges the statuses of one profile of the classification product:         *)
(*  q: quality bits; det, src, att: reported statuses                        *)
(*  liq, rain, melt: stored attenuation amounts (mdB, FILL when missing)     *)
(*  wband; lwp (g m-2), rate (um h-1): FILL when missing                     *)
EXTENDS TraceBase, Pixels
P == INSTANCE ProfileScan WITH Kinds <- {}, MaxGates <- 0, gates <- <<>>, status <- <<>>, severe <- FALSE, heavy <- FALSE

Amount(x) == IF x = FILL THEN 0 ELSE x
Heavy(e) == e.wband /\ (Amount(e.lwp) > 1000 \/ Amount(e.rate) > 3000)
Gates(e) == [i \in 1..Len(e.q) |-> [q |-> e.q[i], att |-> Amount(e.liq[i]) + Amount(e.rain[i]) + Amount(e.melt[i])]]
Judge(e) ==
    LET n == Len(e.q) IN
    C("ONE_STATUS_PER_PIXEL", Len(e.det) = n /\ Len(e.src) = n /\ Len(e.att) = n)
    \cup IF ~(Len(e.det) = n /\ Len(e.src) = n /\ Len(e.att) = n) THEN {} ELSE
         C("DETECTION_STATUS", \A i \in 1..n : e.det[i] = Detection(e.q[i]))
         \cup C("SIGNAL_SOURCE_STATUS", \A i \in 1..n : e.src[i] = Source(e.q[i]))
         \cup C("ATTENUATION_STATUS", e.att = P!Scan(Gates(e), Heavy(e), FALSE))
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
