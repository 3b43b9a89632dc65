---------------------------- MODULE AccumTrace ------------------------------
(* Judges accumulated amounts computed by the real code.  An event carries   *)
(* the raw rows (time stamp, reading) in file order and the output series.   *)
EXTENDS TraceBase
A == INSTANCE Accum WITH MaxLen <- 0, Drops <- {}, Starts <- {}, counter <- 0, truth <- 0,
        readings <- <<>>, offset <- 0, last <- 0, out <- <<>>

(* rows in time order, one per time stamp                                    *)
Times(rows) == {rows[i].t : i \in 1..Len(rows)}
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>>
          ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
At(rows, t) == rows[CHOOSE i \in 1..Len(rows) : rows[i].t = t /\ \A j \in 1..(i-1) : rows[j].t # t]
Kept(rows) == SelectSeq(rows, LAMBDA r : r.keep)
Ordered(rows) == LET ts == Asc(Times(rows)) IN [i \in 1..Len(ts) |-> At(rows, ts[i])]

CounterClauses(r, s) ==
    C("GAPS", A!SameGaps(r, s))
    \cup (IF ~A!SameGaps(r, s) THEN {} ELSE
          C("STARTS_AT_ZERO", A!StartsAtZero(s))
          \cup C("NEVER_DECREASES", A!NonDecreasing(s))
          \cup C("SUM_OF_INCREMENTS", s = A!Accumulated(r)))

RateClauses(rows, e) ==
    LET n == Len(rows)
        r == [i \in 1..n |-> rows[i].v]
        diffs == [i \in 1..(n - 1) |-> rows[i + 1].t - rows[i].t]
        step2 == IF n < 2 THEN 0 ELSE A!Median2(diffs)
        want == A!RunningSum(r)
    IN C("GAPS", n = 1 \/ A!SameGaps(r, e.out))
       \cup (IF n > 1 /\ ~A!SameGaps(r, e.out) THEN {} ELSE
             C("NEVER_DECREASES", A!NonDecreasing(e.out))
             \cup C("SUM_OF_RATE", \A i \in 1..n : want[i] = FILL \/
                        Near(e.out[i] * e.per * 2, want[i] * step2, Max2(e.per * 4, (want[i] * step2) \div 50000))))

Judge(e) ==
    IF e.status # "ok" THEN {"STATUS"}
    ELSE LET rows == Ordered(Kept(e.rows))
             r == [i \in 1..Len(rows) |-> rows[i].v]
         IN C("ROWS", Len(e.out) = Len(rows))
            \cup (IF Len(e.out) # Len(rows) THEN {}
                  ELSE IF e.ev = "counter" THEN CounterClauses(r, e.out)
                  ELSE RateClauses(rows, e))
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
