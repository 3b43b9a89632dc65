------------------------------ MODULE MCPointing -------------------------------
(* An antenna that moves, measured now and then.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Steps
P == INSTANCE Pointing
VARIABLES el, az
Els == {P!FILL, 9000, 9040, 8000}
Azs == {P!FILL, 0, 6, 35997, 9000}
Init == \E e \in Els, a \in Azs : el = <<e>> /\ az = <<a>>
Next == Len(el) < Steps /\ \E e \in Els, a \in Azs : el' = Append(el, e) /\ az' = Append(az, a)
Spec == Init /\ [][Next]_<<el, az>>
Kept == P!Kept(el, az, 50, 10)
Two == Len(el) >= 2
(* profiles known not to be vertical never count; standing still at the zenith always does; nothing known: everything does *)
NoScans == Two => \A t \in Kept : el[t] # 8000
Zenith == Two /\ (\A t \in 1..Len(el) : el[t] \in {9000, P!FILL} /\ az[t] \in {0, P!FILL}) => Kept = 1..Len(el)
(* north is no limit *)
North == Two => P!Kept(el, [t \in 1..Len(az) |-> IF az[t] = P!FILL THEN P!FILL ELSE az[t] + 36000], 50, 10) = Kept
Rotated == Two => P!Kept(el, [t \in 1..Len(az) |-> IF az[t] = P!FILL THEN P!FILL ELSE (az[t] + 20000) % 36000], 50, 10) = Kept
(* knowing less never removes a profile *)
LessKnown == Two => \A t \in 1..Len(el) : Kept \subseteq P!Kept([el EXCEPT ![t] = P!FILL], az, 50, 10)
(* what comes later does not matter, except to the first profile *)
Causal == Len(el) >= 3 => LET k == P!Kept(SubSeq(el, 1, Len(el) - 1), SubSeq(az, 1, Len(az) - 1), 50, 10) IN Kept \cap (1..(Len(el) - 1)) = k
Emit == Len(el) = Steps => PrintT("CASE " \o ToJson([el |-> el, az |-> az]))
=============================================================================
