------------------------------- MODULE MCPixels -------------------------------
(* The classification as a table over all 64 x 1024 pixels: a walk through   *)
(* the pixels, one per step, checking that the classes form a partition and  *)
(* agree with each other.                                                    *)
EXTENDS Pixels, TLC
VARIABLES c, q
Init == c \in 0..63 /\ q = 0
Next == q < 1023 /\ q' = q + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, q>>

Targets == {"liquid", "ice", "melting", "rain", "aerosol", "insect"}
Total == Target(c, q) \in 0..10 /\ Detection(q) \in 0..9 /\ Source(q) \in 0..3
(* clear sky exactly where no target is left                                 *)
ClearIff == Target(c, q) = 0 <=>
    \/ Clutter(q) /\ ~Aerosol(c)
    \/ ~Clutter(q) /\ ~Insect(c) /\ ~Aerosol(c) /\ ~Melting(c) /\ ~Falling(c) /\ ~Droplet(c)
(* the class of a pixel ignores every quality bit but clutter                *)
OnlyClutterMatters == Target(c, q) = Target(c, IF Clutter(q) THEN 4 ELSE 0)
(* clouds are droplets or ice; ice classes are exactly the ice pixels        *)
CloudIsDropletOrIce == Target(c, q) \in CloudTargets => Droplet(c) \/ (Falling(c) /\ Freezing(c))
IceClass == (Target(c, q) \in {4, 5}) => Ice(c) \/ Insect(c)
(* statuses agree: something is detected iff there is a source, unless       *)
(* clutter, molecular scattering or attenuation say otherwise                *)
DetectionAgrees == (~Clutter(q) /\ ~Molecular(q) /\ ~Attenuated(q)) =>
    /\ Detection(q) = 0 <=> Source(q) = 0
    /\ Detection(q) = 3 <=> Source(q) = 1
    /\ Detection(q) = 5 <=> Source(q) = 2
    /\ Detection(q) = 1 <=> Source(q) = 3
(* a corrected status needs every source of attenuation corrected            *)
CorrectedMeansAll == Detection(q) \in {6, 7} => ~NotCorrected(q)
(* ice has exactly one of the statuses of ice                                *)
IceStatusTotal == \A rain, z \in BOOLEAN :
    /\ IceStatus(c, q, rain, z) \in {0, 1, 2, 3, 4, 6, 7}
    /\ IceStatus(c, q, rain, z) \in {1, 2, 3, 4} <=> Ice(c)
    /\ IceStatus(c, q, rain, z) \in {1, 3} <=> IceValue(c, q, z)
(* a droplet pixel with an echo, and no other, has a retrieval status        *)
DropletStatusTotal == \A rain, z \in BOOLEAN :
    /\ DropletStatus(c, rain, z) \in 0..4
    /\ DropletStatus(c, rain, z) \in {1, 2, 3} <=> DropletValue(c, z)
    /\ DropletStatus(c, rain, z) = 4 => Target(c, q) \in {0, 4, 8} /\ ~DropletValue(c, z)
(* drizzle is retrieved only in the class rain/drizzle with signals from both*)
(* instruments, and the statuses exclude each other                          *)
DrizzleStatusTotal == \A rain, vs, cold \in BOOLEAN :
    LET s == DrizzleStatus(c, q, rain, vs, cold) IN
    /\ s \in 0..5
    /\ s = 5 <=> rain
    /\ s \in {1, 2} <=> Drizzle(c, q, rain, vs)
    /\ Drizzle(c, q, rain, vs) => Target(c, q) \in {2, 8} /\ Source(q) = 1 /\ ~WouldBeDrizzle(c, q, rain)
    /\ s \in {3, 4} => Droplet(c)
=============================================================================
