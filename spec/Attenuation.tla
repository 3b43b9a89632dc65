----------------------------- MODULE Attenuation ------------------------------
(* Attenuation of one profile, gate by gate from the ground: each source of  *)
(* attenuation either has a known amount, by which the reflectivity is       *)
(* corrected, or is flagged as uncorrected.                                  *)
EXTENDS Integers, Sequences
CONSTANTS NGates, Amounts
VARIABLES gates,      \* droplet / freezing / melting of the gates passed so far
          rain, rate, \* profile is rainy; rate known (0: no disdrometer or missing)
          lwp,        \* water path known
          flags       \* what is decided for each gate
vars == <<gates, rain, rate, lwp, flags>>
Gate == [drop : BOOLEAN, frz : BOOLEAN, melt : BOOLEAN]
Sources == {"liquid", "rain", "melting"}
Init == gates = <<>> /\ flags = <<>> /\ rain \in BOOLEAN /\ rate \in 0..Amounts /\ lwp \in BOOLEAN
Seen(gs, f) == \E i \in 1..Len(gs) : gs[i][f]
WarmBelow(gs) == \E i \in 1..Len(gs) : ~gs[i].frz
Flag(gs) ==
    LET g == gs[Len(gs)]
        liquid == Seen(gs, "drop") /\ ~rain
        melting == rain /\ g.frz /\ (rate > 0 \/ Seen(gs, "melt"))
        only(x, src) == IF x THEN {src} ELSE {}
    IN [attenuated |-> only(liquid, "liquid") \cup only(rain, "rain") \cup only(melting, "melting"),
        corrected |-> only(liquid /\ lwp, "liquid") \cup only(rain /\ rate > 0 /\ WarmBelow(gs), "rain") \cup only(melting /\ rate > 0, "melting"),
        amount |-> (IF liquid /\ lwp THEN 1 ELSE 0) + (IF rain THEN rate * (IF WarmBelow(gs) THEN 1 ELSE 0) ELSE 0) + (IF melting THEN rate ELSE 0)]
AddGate == /\ Len(gates) < NGates
           /\ \E g \in Gate : /\ (gates # <<>> /\ gates[Len(gates)].frz => g.frz)     \* freezing does not end upwards
                              /\ gates' = Append(gates, g)
                              /\ flags' = Append(flags, Flag(gates'))
           /\ UNCHANGED <<rain, rate, lwp>>
Next == AddGate
Spec == Init /\ [][Next]_vars
CorrectedIsAttenuated == \A i \in 1..Len(flags) : flags[i].corrected \subseteq flags[i].attenuated
NothingForFree == \A i \in 1..Len(flags) : (flags[i].corrected = {} => flags[i].amount = 0)
Grows == \A i \in 1..(Len(flags) - 1) : flags[i].amount <= flags[i + 1].amount
RainExcludesLiquid == \A i \in 1..Len(flags) : ~({"liquid", "rain"} \subseteq flags[i].attenuated)
OnceAttenuatedAlways == \A i \in 1..(Len(flags) - 1) : flags[i].attenuated \subseteq flags[i + 1].attenuated
=============================================================================
