------------------------------- MODULE GapScreen -------------------------------
(* Time steps of the categorize product.  The day is a sequence of bins; raw *)
(* radar profiles fall into bins, a lidar profile with data serves bins      *)
(* within Reach of it, the model covers a range of bins; instruments that    *)
(* are optional never decide.  The day is screened bin by bin.               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NBins, Reach
VARIABLES radar, lidar, model, extra,  \* bins with data of each
          pc, kept
vars == <<radar, lidar, model, extra, pc, kept>>
Dist(a, b) == IF a > b THEN a - b ELSE b - a
Covered(i) == i \in radar /\ i \in model /\ \E j \in lidar : Dist(i, j) <= Reach
Init == /\ radar \in SUBSET (1..NBins) /\ lidar \in SUBSET (1..NBins)
        /\ model \in {1..NBins, 1..(NBins - 1)}
        /\ extra \in {{}, 1..NBins}
        /\ pc = 1 /\ kept = {}
Screen == /\ pc \in 1..NBins
          /\ kept' = IF Covered(pc) THEN kept \cup {pc} ELSE kept
          /\ pc' = pc + 1
          /\ UNCHANGED <<radar, lidar, model, extra>>
Finish == /\ pc = NBins + 1
          /\ pc' = IF Cardinality(kept) < 2 THEN -1 ELSE 0      \* too few: error
          /\ UNCHANGED <<radar, lidar, model, extra, kept>>
Next == Screen \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OnlyCovered == \A i \in kept : i \in radar /\ i \in model
All == pc \in {0, -1} => kept = {i \in 1..NBins : Covered(i)}
NothingLostIfComplete == (pc = 0 /\ radar = 1..NBins /\ lidar = 1..NBins /\ model = 1..NBins) => kept = 1..NBins
Ends == <>(pc \in {0, -1})
Error == pc = -1 => Cardinality(kept) < 2
=============================================================================
