---------------------------- MODULE RebinVelTrace ----------------------------
(* Doppler velocities are averaged as directions on the circle of the        *)
(* folding velocity.  Samples sit on quarter turns q (0, 90, 180, 270 deg),  *)
(* so that the sum of their unit vectors is an integer vector; the output is *)
(* given as the cosine and sine (x 10^4) of its angle.                       *)
EXTENDS TraceBase
X(q) == IF q = 0 THEN 1 ELSE IF q = 2 THEN -1 ELSE 0
Y(q) == IF q = 1 THEN 1 ELSE IF q = 3 THEN -1 ELSE 0
RECURSIVE SumX(_, _)
SumX(s, J) == IF J = {} THEN 0 ELSE LET j == CHOOSE x \in J : TRUE IN X(s[j].q) + SumX(s, J \ {j})
RECURSIVE SumY(_, _)
SumY(s, J) == IF J = {} THEN 0 ELSE LET j == CHOOSE x \in J : TRUE IN Y(s[j].q) + SumY(s, J \ {j})
Judge(e) ==
    IF e.status # "ok" THEN {"FAILED"} ELSE
    UNION {LET M == {j \in 1..Len(e.series) : e.series[j].ok /\ (i - 1) * e.width <= e.series[j].t /\ e.series[j].t < i * e.width}
               sx == SumX(e.series, M)
               sy == SumY(e.series, M)
           IN IF M = {} THEN C("NO_DATA_IS_MASKED", e.c[i] = FILL)
              ELSE C("VALUE_PRESENT", e.c[i] # FILL)
                   \cup IF e.c[i] = FILL \/ (sx = 0 /\ sy = 0) THEN {}
                        ELSE C("MEAN_DIRECTION", Abs(e.c[i] * sy - e.s[i] * sx) <= 20 * (Abs(sx) + Abs(sy)) /\ e.c[i] * sx + e.s[i] * sy > 0)
           : i \in 1..e.nbins}
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
