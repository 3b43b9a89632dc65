----------------------------- MODULE RebinTrace ------------------------------
(* Judges calls of rebin_1d / rebin_2d / CloudnetArray.rebin_data and the    *)
(* rebinned variables of a radar.  Every event describes one column:         *)
(*  series, first, width, nbins, stat, nmin, lastclosed, zeromask            *)
(*  out: result of each bin x 10^4 (its square for stat = "std")             *)
(*  empty: indices (from 0) reported as empty, or <<-1>> when not reported   *)
EXTENDS TraceBase
R == INSTANCE Rebin WITH Ticks <- {}, Values <- {}, MaxSamples <- 0, NBins <- 0, Width <- 0, First <- 0, series <- <<>>, acc <- <<>>

(* the value of bin i for the set M of contributing samples                  *)
Good(e, i, M) ==
    LET n == Cardinality(M)
        s == R!SumAt(e.series, M)
        o == e.out[i]
        var == n * R!SqAt(e.series, M) - s * s
    IN IF n = 0 THEN o = FILL
       ELSE IF e.stat = "max" THEN o = R!MaxAt(e.series, M) * 10000
       ELSE IF e.stat = "mean" THEN
            IF e.zeromask /\ s = 0 THEN o = FILL ELSE o # FILL /\ Abs(o * n - s * 10000) <= 3 * n
       ELSE (* std *) IF e.zeromask /\ var = 0 THEN o = FILL
            ELSE o # FILL /\ Abs(o * n * n - var * 10000) <= 20 * n * n
(* a sample on the very last edge may be counted in the last bin             *)
Choices(e, i) ==
    LET P == R!Members(e.series, i, e.first, e.width)
        X == {j \in 1..Len(e.series) : e.series[j].ok /\ e.series[j].t = e.first + e.nbins * e.width}
    IN IF i = e.nbins /\ e.lastclosed THEN {P, P \cup X} ELSE {P}
Enough(e, i) == e.dims = 1 \/ Cardinality(R!Profiles(e.series, i, e.first, e.width)) >= e.nmin

Judge(e) ==
    C("ONE_VALUE_PER_BIN", Len(e.out) = e.nbins)
    \cup IF Len(e.out) # e.nbins THEN {} ELSE
         C("MEAN_OF_OWN_SAMPLES", \A i \in 1..e.nbins :
             (Enough(e, i) /\ R!Members(e.series, i, e.first, e.width) # {}) => \E M \in Choices(e, i) : Good(e, i, M))
         \cup C("NO_DATA_IS_MASKED", \A i \in 1..e.nbins :
             (~Enough(e, i) \/ \A M \in Choices(e, i) : M = {}) => e.out[i] = FILL)
         \cup C("EMPTY_BINS_REPORTED", e.empty = <<-1>> \/
             {e.empty[k] : k \in 1..Len(e.empty)} =
                {i - 1 : i \in {i \in 1..e.nbins : IF e.dims = 1 THEN e.out[i] = FILL ELSE ~Enough(e, i)}})
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
