------------------------------- MODULE Accum --------------------------------
(* A rain gauge whose counter can be reset or be unreadable, and the daily   *)
(* accumulated amount derived from its readings.  A reading is M (missing)   *)
(* or a natural number.                                                      *)
EXTENDS Integers, Sequences, FiniteSets

M == -999999

(* ---- definition: sum of the real increments since the first reading ----- *)
ValidIdx(r, i) == {j \in 1..i : r[j] # M}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Increment(prev, cur) == IF cur >= prev THEN cur - prev ELSE cur

(* the accumulated series, built left to right: acc = [prev, total, out]     *)
RECURSIVE AccumFrom(_, _, _, _, _)
AccumFrom(r, i, prev, total, out) ==
    IF i > Len(r) THEN out
    ELSE IF r[i] = M THEN AccumFrom(r, i + 1, prev, total, Append(out, M))
    ELSE IF prev = M THEN AccumFrom(r, i + 1, r[i], 0, Append(out, 0))
    ELSE LET tot == total + Increment(prev, r[i])
         IN AccumFrom(r, i + 1, r[i], tot, Append(out, tot))
Accumulated(r) == AccumFrom(r, 1, M, 0, <<>>)

(* amounts of stations that only give a rate: running sum of rate x step     *)
RECURSIVE RunSum(_, _, _, _)
RunSum(r, i, total, out) ==
    IF i > Len(r) THEN out
    ELSE IF r[i] = M THEN RunSum(r, i + 1, total, Append(out, M))
    ELSE RunSum(r, i + 1, total + r[i], Append(out, total + r[i]))
RunningSum(r) == RunSum(r, 1, 0, <<>>)

(* twice the median of a non-empty sequence of numbers                       *)
Rank(s, x) == Cardinality({i \in 1..Len(s) : s[i] < x})
RankLe(s, x) == Cardinality({i \in 1..Len(s) : s[i] <= x})
KthSmallest(s, k) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : Rank(s, x) < k /\ RankLe(s, x) >= k
Median2(s) == LET n == Len(s) IN
    IF n % 2 = 1 THEN 2 * KthSmallest(s, (n + 1) \div 2)
    ELSE KthSmallest(s, n \div 2) + KthSmallest(s, n \div 2 + 1)

(* properties of any accumulated series                                      *)
NonDecreasing(s) == \A i, j \in 1..Len(s) : i < j /\ s[i] # M /\ s[j] # M => s[i] <= s[j]
StartsAtZero(s) == \A i \in 1..Len(s) : s[i] # M /\ (\A j \in 1..(i - 1) : s[j] = M) => s[i] = 0
SameGaps(r, s) == Len(r) = Len(s) /\ \A i \in 1..Len(r) : (r[i] = M) <=> (s[i] = M)

-----------------------------------------------------------------------------
(* the gauge (truth) and the processing that walks over the readings with an *)
(* offset and the last corrected value                                       *)
CONSTANTS MaxLen, Drops, Starts
VARIABLES counter, truth, readings, offset, last, out
avars == <<counter, truth, readings, offset, last, out>>

InitA == /\ counter \in Starts /\ truth = 0 /\ readings = <<>>
         /\ offset = 0 /\ last = M /\ out = <<>>

Process(v) ==
    IF v = M THEN /\ out' = Append(out, M) /\ UNCHANGED <<offset, last>>
    ELSE IF last = M THEN /\ out' = Append(out, v) /\ last' = v /\ UNCHANGED offset
    ELSE LET o == IF v + offset < last THEN last ELSE offset
         IN /\ offset' = o /\ last' = v + o /\ out' = Append(out, v + o)

Rain(k) == /\ Len(readings) < MaxLen
           /\ counter' = counter + k
           /\ truth' = IF last = M THEN 0 ELSE truth + k
           /\ readings' = Append(readings, counter') /\ Process(counter')
(* a reset is visible when the counter restarts below its last reading       *)
Reset(k) == /\ Len(readings) < MaxLen /\ k < counter
            /\ counter' = k
            /\ truth' = IF last = M THEN 0 ELSE truth + k
            /\ readings' = Append(readings, k) /\ Process(k)
Missing == /\ Len(readings) < MaxLen
           /\ readings' = Append(readings, M) /\ Process(M)
           /\ UNCHANGED <<counter, truth>>
NextA == (\E k \in Drops : Rain(k)) \/ (\E k \in Drops : Reset(k)) \/ Missing
SpecA == InitA /\ [][NextA]_avars

First(s) == IF ValidIdx(s, Len(s)) = {} THEN 0
            ELSE s[CHOOSE i \in ValidIdx(s, Len(s)) : \A j \in ValidIdx(s, Len(s)) : i <= j]
Result == [i \in 1..Len(out) |-> IF out[i] = M THEN M ELSE out[i] - First(out)]

WalkMeetsDefinition == Result = Accumulated(readings)
TruthRecovered == LET v == ValidIdx(Result, Len(Result)) IN v # {} => Result[MaxOf(v)] = truth
WellFormed == NonDecreasing(Result) /\ StartsAtZero(Result) /\ SameGaps(readings, Result)
=============================================================================
