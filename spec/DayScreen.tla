----------------------------- MODULE DayScreen ------------------------------
(* Daily screening of raw instrument profiles.  A profile is a record        *)
(* [t |-> seconds relative to the midnight that starts the requested date,   *)
(*  k |-> identity of its measurement, keep |-> survives the instrument's    *)
(*  documented quality screening].                                           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Day            \* seconds in a day

OnDate(r) == 0 <= r.t /\ r.t < Day
Usable(rows) == {rows[i] : i \in {j \in 1..Len(rows) : OnDate(rows[j]) /\ rows[j].keep}}
Stamps(rows) == {r.t : r \in Usable(rows)}
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>>
          ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})

(* declarative property of an output: sequence of [t, k]                     *)
Increasing(out) == \A i \in 1..(Len(out) - 1) : out[i].t < out[i + 1].t
ExactStamps(rows, out) == {out[i].t : i \in 1..Len(out)} = Stamps(rows)
Aligned(rows, out) == \A i \in 1..Len(out) : \E r \in Usable(rows) : r.t = out[i].t /\ r.k = out[i].k
Screened(rows, out) == Increasing(out) /\ ExactStamps(rows, out) /\ Aligned(rows, out)

-----------------------------------------------------------------------------
(* the processing: profiles arrive file by file, then are filtered, sorted,  *)
(* stripped of repeated stamps                                               *)
CONSTANTS Times, MaxRows, MinProfiles
VARIABLES raw, work, stage
dvars == <<raw, work, stage>>
InitD == raw = <<>> /\ work = <<>> /\ stage = "read"
Arrive(t) == /\ stage = "read" /\ Len(raw) < MaxRows
             /\ raw' = Append(raw, [t |-> t, k |-> Len(raw) + 1, keep |-> TRUE])
             /\ UNCHANGED <<work, stage>>
Filter == /\ stage = "read" /\ raw # <<>>
          /\ work' = SelectSeq(raw, OnDate)
          /\ stage' = IF Len(SelectSeq(raw, OnDate)) = 0 THEN "failed" ELSE "filtered"
          /\ UNCHANGED raw
(* sort by exchanging any two neighbours that are in the wrong order         *)
Swap(i) == /\ stage = "filtered" /\ i < Len(work) /\ work[i].t > work[i + 1].t
           /\ work' = [work EXCEPT ![i] = work[i + 1], ![i + 1] = work[i]]
           /\ UNCHANGED <<raw, stage>>
Sorted(w) == \A i \in 1..(Len(w) - 1) : w[i].t <= w[i + 1].t
Dedupe(i) == /\ stage = "filtered" /\ Sorted(work) /\ i < Len(work) /\ work[i].t = work[i + 1].t
             /\ work' = SubSeq(work, 1, i - 1) \o SubSeq(work, i + 1, Len(work))
             /\ UNCHANGED <<raw, stage>>
Finish == /\ stage = "filtered" /\ Increasing(work)
          /\ stage' = IF Len(work) < MinProfiles THEN "failed" ELSE "done"
          /\ UNCHANGED <<raw, work>>
NextD == (\E t \in Times : Arrive(t)) \/ Filter \/ (\E i \in 1..MaxRows : Swap(i))
         \/ (\E i \in 1..MaxRows : Dedupe(i)) \/ Finish
SpecD == InitD /\ [][NextD]_dvars /\ WF_dvars(NextD)

DoneIsScreened == stage = "done" => Screened(raw, work)
FailsOnlyWithoutData == stage = "failed" => Cardinality(Stamps(raw)) < MinProfiles
Terminates == <>(stage \in {"done", "failed"})
=============================================================================
