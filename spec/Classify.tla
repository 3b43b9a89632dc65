------------------------------ MODULE Classify --------------------------------
(* How the bits of a pixel come about: the steps of the classification, in   *)
(* order.  Whatever depends on the surroundings of the pixel (a peak in the  *)
(* backscatter profile, the probability of insects, sizes of regions) is     *)
(* left open, so that what holds in the end holds for every scene.           *)
EXTENDS Categories, Sequences
CONSTANT Temps          \* representative wet-bulb temperatures, mK
VARIABLES a, bits, clutter, pc
vars == <<a, bits, clutter, pc>>
Steps == <<"melting", "freezing", "liquid", "insects", "falling", "undetected", "filterInsects", "aerosols", "superCold", "highLdr",
           "insectsInFalling", "speckle", "clutter", "done">>
Has(x) == x \in bits
Set(x, on) == IF on THEN bits \cup {x} ELSE bits \ {x}
Next1 == pc' = pc + 1
At(s) == Steps[pc] = s
Init == /\ a \in [z : BOOLEAN, b : BOOLEAN, tw : Temps, agl : {500, 2500, 6000}]
        /\ clutter \in BOOLEAN /\ (clutter => a.z)
        /\ bits = {} /\ pc = 1
InMeltingRange == a.tw > T0 - 8000 /\ a.tw < T0 + 6000
FindMelting == At("melting") /\ Next1 /\ UNCHANGED <<a, clutter>> /\ \E on \in BOOLEAN : (on => InMeltingRange) /\ bits' = Set(Melting, on)
(* near 0 degC an observed melting layer may overrule the temperature *)
FindFreezing == At("freezing") /\ Next1 /\ UNCHANGED <<a, clutter>> /\
    \E on \in BOOLEAN : (InMeltingRange \/ on = (a.tw < T0)) /\ bits' = Set(Freezing, on)
FindLiquid == At("liquid") /\ Next1 /\ UNCHANGED <<a, clutter>> /\ \E on \in BOOLEAN : bits' = Set(Droplet, on)
FindInsects == At("insects") /\ Next1 /\ UNCHANGED <<a, clutter>> /\
    \E on \in BOOLEAN : (on => a.z /\ ~Has(Droplet) /\ a.tw > T0 - 8000) /\ bits' = Set(Insect, on)
ColdLidar == a.b /\ ~Has(Droplet) /\ a.tw < T0 - 15000 /\ a.agl >= 2000
FindFalling == At("falling") /\ Next1 /\ UNCHANGED <<a, clutter>> /\
    \E warmLiquid, window \in BOOLEAN :
        LET radar == a.z /\ ~clutter /\ ~Has(Insect) /\ ~(warmLiquid /\ Has(Droplet))
            lidar == ColdLidar /\ ~(window /\ a.agl < 4000)
        IN bits' = Set(Falling, radar \/ lidar)
Undetected == At("undetected") /\ Next1 /\ UNCHANGED <<a, clutter>> /\
    \E on \in BOOLEAN : (on => Has(Freezing) /\ (Has(Falling) \/ Has(Droplet))) /\ bits' = IF on THEN bits \cup {Melting} ELSE bits
FilterInsects == At("filterInsects") /\ Next1 /\ UNCHANGED <<a, clutter>> /\
    \E on \in BOOLEAN : bits' = IF on /\ Has(Insect) THEN (bits \ {Insect}) \cup {Falling} ELSE bits
FindAerosols == At("aerosols") /\ Next1 /\ UNCHANGED <<a, clutter>> /\ bits' = Set(Aerosol, a.b /\ ~Has(Falling) /\ ~Has(Droplet))
SuperCold == At("superCold") /\ Next1 /\ UNCHANGED <<a, clutter>> /\
    bits' = IF Has(Droplet) /\ a.tw < T0 - 38000 THEN (bits \ {Droplet}) \cup {Falling} ELSE bits
HighLdr == At("highLdr") /\ Next1 /\ UNCHANGED <<a, clutter>> /\
    \E on \in BOOLEAN : bits' = IF on /\ a.z /\ Has(Falling) /\ Has(Freezing) /\ ~Has(Droplet) /\ ~Has(Melting) /\ a.tw > T0 - 10000
                                THEN (bits \ {Falling}) \cup {Insect} \cup (IF a.b THEN {Aerosol} ELSE {})
                                ELSE bits
InsectsInFalling == At("insectsInFalling") /\ Next1 /\ UNCHANGED <<a, clutter>> /\
    \E on \in BOOLEAN : bits' = IF on /\ Has(Insect) /\ Has(Freezing) THEN (bits \ {Insect, Aerosol}) \cup {Falling} ELSE bits
Speckle == At("speckle") /\ Next1 /\ UNCHANGED <<a, clutter>> /\
    \E on \in BOOLEAN : bits' =
        IF ~(on /\ Has(Falling)) THEN bits
        ELSE (bits \ {Falling}) \cup (IF Has(Droplet) THEN {} ELSE (IF Has(Freezing) THEN {} ELSE {Insect}) \cup (IF a.b THEN {Aerosol} ELSE {}))
(* clutter beside or inside cloud and rain is no clutter; droplets and what falls are never clutter *)
RemoveClutter == At("clutter") /\ Next1 /\ UNCHANGED a /\
    \E near \in BOOLEAN : LET false == clutter /\ (near \/ Has(Droplet) \/ Has(Falling))
                          IN clutter' = (clutter /\ ~false) /\ bits' = IF false THEN (bits \ {Aerosol, Insect}) \cup {Falling} ELSE bits
Next == FindMelting \/ FindFreezing \/ FindLiquid \/ FindInsects \/ FindFalling \/ Undetected \/ FilterInsects \/ FindAerosols
        \/ SuperCold \/ HighLdr \/ InsectsInFalling \/ Speckle \/ RemoveClutter
Spec == Init /\ [][Next]_vars
TypeOK == bits \subseteq AllBits /\ pc \in 1..Len(Steps)
FinalOK == At("done") => PixelOK(a, bits, clutter)
(* what stays of a feature while the steps go on: droplets only disappear by freezing *)
DropletsStay == [][pc > 3 /\ Droplet \in bits /\ Droplet \notin bits' => a.tw < T0 - 38000]_vars
=============================================================================
