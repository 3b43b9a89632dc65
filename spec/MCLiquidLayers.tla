---------------------------- MODULE MCLiquidLayers -----------------------------
(* The profile is observed gate by gate from the ground.                     *)
EXTENDS LiquidLayers, TLC, Json
CONSTANTS NGates, Levels, Dz, Colds
VARIABLES k, echo, frz
MCLevels == {0, 500, 3000, 9000}
MCDeepLevels == {0, 500, 3000, 9000, 30000}
MCColds == {1, 4, 7}
vars == <<k, echo, frz>>
Init == k = <<>> /\ echo = <<>> /\ frz \in Colds
Observe == /\ Len(k) < NGates
           /\ \E x \in Levels : k' = Append(k, x)
           /\ \E z \in BOOLEAN : /\ (Len(k) < NGates - 3 => ~z)       \* echoes near the top only, to keep the model small
                                 /\ echo' = Append(echo, z)
           /\ UNCHANGED frz
Next == Observe
Spec == Init /\ [][Next]_vars
Done == Len(k) = NGates
Cold == [i \in 1..NGates |-> i >= frz]
Abs2(a, b) == IF a > b THEN a - b ELSE b - a
Lay == Layers(k, Dz, 0)
LayersHavePeaks == Done => \A i \in Lay : \E p \in Peaks(k) : Abs2(i, p) * Dz <= 200
EdgesAreMeasured == Done => \A i \in Lay : (i + 1 \notin Lay \/ i - 1 \notin Lay) => k[i] # 0
AtLeastThree == Done => (Lay # {} => Cardinality({i \in Lay : k[i] # 0}) >= 3)
OnlyExtendsUp == Done => LET c == Corrected(Lay, echo, Cold, Dz) IN
    /\ Lay \subseteq c
    /\ \A i \in c \ Lay : echo[i] /\ i - 1 \in c
NothingWithoutPeak == Done => (Peaks(k) = {} => Corrected(Lay, echo, Cold, Dz) = {})
Emit == ~Done \/ Peaks(k) = {} \/ frz # 1 \/ (\E i \in 1..NGates : echo[i]) \/ PrintT("CASE " \o ToJson(k))
=============================================================================
