-------------------------------- MODULE Rebin --------------------------------
(* Averaging of a time series (or of one range gate of a time-height field)  *)
(* onto a regular grid.  Times are integers ("ticks"); bin i covers the      *)
(* half-open interval [first + (i-1)*width, first + i*width).  A sample is a *)
(* record [t |-> time, v |-> value, ok |-> not masked and finite].           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Ticks, Values, MaxSamples, NBins, Width, First
VARIABLES series, acc
rvars == <<series, acc>>

In(t, i, first, w) == first + (i - 1) * w <= t /\ t < first + i * w
RECURSIVE SumAt(_, _)
SumAt(s, J) == IF J = {} THEN 0 ELSE LET j == CHOOSE x \in J : TRUE IN s[j].v + SumAt(s, J \ {j})
RECURSIVE SqAt(_, _)
SqAt(s, J) == IF J = {} THEN 0 ELSE LET j == CHOOSE x \in J : TRUE IN s[j].v * s[j].v + SqAt(s, J \ {j})
Profiles(s, i, first, w) == {j \in 1..Len(s) : In(s[j].t, i, first, w)}
Members(s, i, first, w) == {j \in Profiles(s, i, first, w) : s[j].ok}
MaxAt(s, J) == CHOOSE x \in {s[j].v : j \in J} : \A j \in J : s[j].v <= x

(* the process: samples are taken in, in any order, by a running sum         *)
InitR == series = <<>> /\ acc = [i \in 1..NBins |-> [n |-> 0, valid |-> 0, sum |-> 0]]
Take(t, v, ok) ==
    /\ Len(series) < MaxSamples
    /\ series' = Append(series, [t |-> t, v |-> v, ok |-> ok])
    /\ acc' = [i \in 1..NBins |->
                 IF In(t, i, First, Width)
                 THEN [n |-> acc[i].n + 1,
                       valid |-> acc[i].valid + IF ok THEN 1 ELSE 0,
                       sum |-> acc[i].sum + IF ok THEN v ELSE 0]
                 ELSE acc[i]]
NextR == \E t \in Ticks, v \in Values, ok \in BOOLEAN : Take(t, v, ok)
SpecR == InitR /\ [][NextR]_rvars

AccumulatorsAreMembers ==
    \A i \in 1..NBins : LET M == Members(series, i, First, Width) IN
        acc[i].valid = Cardinality(M) /\ acc[i].sum = SumAt(series, M)
        /\ acc[i].n = Cardinality(Profiles(series, i, First, Width))
(* a sample changes at most one bin                                          *)
Local == [][Cardinality({i \in 1..NBins : acc'[i] # acc[i]}) <= 1]_rvars
Partition == \A j \in 1..Len(series) : Cardinality({i \in 1..NBins : In(series[j].t, i, First, Width)}) <= 1
=============================================================================
