----------------------------- MODULE ProfileScan ------------------------------
(* The radar attenuation status of a profile, as a scan from the lowest gate *)
(* upwards.  State: the gates read so far with their status, and whether     *)
(* severe attenuation has been met.                                          *)
(*                                                                           *)
(* A gate is [q |-> quality bits, att |-> total attenuation in mdB]; heavy   *)
(* says that the whole profile is affected (W band: lwp > 1 kg m-2 or rain   *)
(* rate > 3 mm h-1).                                                         *)
EXTENDS Integers, Sequences, Pixels
CONSTANTS Kinds,    \* the gates that may occur
          MaxGates
VARIABLES gates, status, severe, heavy

(* status of one gate, given that severe attenuation was met below           *)
GateStatus(g, isHeavy, below) ==
    IF ~Radar(g.q) THEN (IF below THEN 6 ELSE 0)
    ELSE IF NotCorrected(g.q) THEN 5
    ELSE IF g.att > 15000 \/ isHeavy THEN 4
    ELSE IF g.att >= 10000 THEN 3
    ELSE IF g.att > 0 THEN 2
    ELSE 1

RECURSIVE Scan(_, _, _)
(* statuses of a whole profile                                               *)
Scan(gs, isHeavy, below) ==
    IF gs = <<>> THEN <<>>
    ELSE LET s == GateStatus(Head(gs), isHeavy, below)
         IN <<s>> \o Scan(Tail(gs), isHeavy, below \/ s = 4)

Init == gates = <<>> /\ status = <<>> /\ severe = FALSE /\ heavy \in BOOLEAN
Read(g) == /\ Len(gates) < MaxGates
           /\ LET s == GateStatus(g, heavy, severe)
              IN /\ status' = Append(status, s)
                 /\ severe' = (severe \/ s = 4)
           /\ gates' = Append(gates, g)
           /\ UNCHANGED heavy
Next == \E g \in Kinds : Read(g)
Spec == Init /\ [][Next]_<<gates, status, severe, heavy>>

ScanIsFold == status = Scan(gates, heavy, FALSE)
(* a gate with a radar signal never reads "no radar signal" and vice versa   *)
SignalIffStatus == \A i \in 1..Len(gates) : Radar(gates[i].q) <=> status[i] \in 1..5
(* undetected only above a severe gate                                       *)
UndetectedAboveSevere == \A i \in 1..Len(gates) :
    status[i] = 6 <=> (~Radar(gates[i].q) /\ \E j \in 1..(i - 1) : status[j] = 4)
Prefix == [][\A i \in 1..Len(status) : status'[i] = status[i]]_<<gates, status, severe, heavy>>
=============================================================================
