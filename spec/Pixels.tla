------------------------------- MODULE Pixels --------------------------------
(* What the bits of a categorize pixel mean, and the classes and statuses    *)
(* the documentation derives from them.  A pixel is a pair of integers:      *)
(* category bits c (0..63) and quality bits q (0..1023).                     *)
EXTENDS Integers

Bit(x, k) == (x \div (2^k)) % 2 = 1
(* category bits                                                             *)
Droplet(c) == Bit(c, 0)
Falling(c) == Bit(c, 1)
Freezing(c) == Bit(c, 2)
Melting(c) == Bit(c, 3)
Aerosol(c) == Bit(c, 4)
Insect(c) == Bit(c, 5)
(* quality bits                                                              *)
Radar(q) == Bit(q, 0)
Lidar(q) == Bit(q, 1)
Clutter(q) == Bit(q, 2)
Molecular(q) == Bit(q, 3)
AttLiquid(q) == Bit(q, 4)
CorrLiquid(q) == Bit(q, 5)
AttRain(q) == Bit(q, 6)
CorrRain(q) == Bit(q, 7)
AttMelting(q) == Bit(q, 8)
CorrMelting(q) == Bit(q, 9)

Attenuated(q) == AttLiquid(q) \/ AttRain(q) \/ AttMelting(q)
(* some source of attenuation has not been corrected                         *)
NotCorrected(q) == \/ AttLiquid(q) /\ ~CorrLiquid(q)
                   \/ AttRain(q) /\ ~CorrRain(q)
                   \/ AttMelting(q) /\ ~CorrMelting(q)
AllCorrected(q) == Attenuated(q) /\ ~NotCorrected(q)

(* target classification, 0..10                                              *)
Target(c, q) ==
    IF Clutter(q) /\ ~Aerosol(c) THEN 0
    ELSE IF Insect(c) /\ ~Clutter(q) THEN (IF Aerosol(c) THEN 10 ELSE 9)
    ELSE IF Aerosol(c) THEN 8
    ELSE IF Melting(c) THEN (IF Droplet(c) THEN 7 ELSE 6)
    ELSE IF Falling(c) THEN
        (IF Freezing(c) THEN (IF Droplet(c) THEN 5 ELSE 4) ELSE (IF Droplet(c) THEN 3 ELSE 2))
    ELSE IF Droplet(c) THEN 1
    ELSE 0
CloudTargets == {1, 3, 4, 5}

(* detection status, 0..9                                                    *)
Detection(q) ==
    IF Molecular(q) /\ ~Radar(q) THEN 9
    ELSE IF Clutter(q) THEN 8
    ELSE IF Radar(q) THEN
        (IF NotCorrected(q) THEN 2 ELSE IF AllCorrected(q) THEN 7 ELSE IF Lidar(q) THEN 3 ELSE 5)
    ELSE (IF AllCorrected(q) THEN 6 ELSE IF NotCorrected(q) THEN 4 ELSE IF Lidar(q) THEN 1 ELSE 0)

(* signal source status, 0..3                                                *)
Source(q) == IF Radar(q) /\ Lidar(q) THEN 1 ELSE IF Radar(q) THEN 2 ELSE IF Lidar(q) THEN 3 ELSE 0

(* ---- ice ----                                                             *)
Ice(c) == Falling(c) /\ Freezing(c) /\ ~Melting(c) /\ ~Insect(c)
WouldBeIce(c) == (Falling(c) /\ ~Freezing(c) /\ ~Insect(c)) \/ Melting(c)
ClearAboveRain(c, rain) == rain /\ ~Ice(c) /\ Freezing(c) /\ ~Melting(c)
(* an ice value is reported exactly here                                     *)
IceValue(c, q, hasz) == Ice(c) /\ ~NotCorrected(q) /\ hasz
IceStatus(c, q, rain, hasz) ==
    IF ClearAboveRain(c, rain) THEN 6
    ELSE IF Ice(c) /\ NotCorrected(q) THEN 2
    ELSE IF Ice(c) /\ ~hasz THEN 4
    ELSE IF Ice(c) THEN (IF AllCorrected(q) THEN 3 ELSE 1)
    ELSE IF WouldBeIce(c) THEN 7
    ELSE 0

(* ---- droplet effective radius ----                                        *)
DropletValue(c, hasz) == Droplet(c) /\ hasz
IceAlone(c) == Falling(c) /\ Freezing(c) /\ ~Melting(c) /\ ~Droplet(c) /\ ~Insect(c)
DropletStatus(c, rain, hasz) ==
    IF DropletValue(c, hasz) THEN (IF rain THEN 3 ELSE IF Falling(c) THEN 2 ELSE 1)
    ELSE IF IceAlone(c) THEN 4 ELSE 0

(* ---- drizzle ----                                                         *)
WarmLiquid(c) == Droplet(c) /\ ~Freezing(c)
(* warm falling droplets below the cloud seen by both instruments through no *)
(* attenuation, with a known variance of the velocity (vs)                   *)
Drizzle(c, q, rain, vs) ==
    /\ ~rain /\ vs
    /\ Falling(c) /\ ~Droplet(c) /\ ~Freezing(c) /\ ~Melting(c) /\ ~Insect(c)
    /\ Radar(q) /\ Lidar(q) /\ ~Clutter(q) /\ ~Molecular(q) /\ ~AttLiquid(q) /\ ~AttRain(q)
(* would be drizzle but for the cloud droplets in the same pixel             *)
WouldBeDrizzle(c, q, rain) ==
    /\ ~rain
    /\ WarmLiquid(c) /\ Falling(c) /\ ~Melting(c) /\ ~Insect(c)
    /\ Radar(q) /\ ~Clutter(q) /\ ~Molecular(q)
(* cold: there is a melting layer in the profile                             *)
DrizzleStatus(c, q, rain, vs, cold) ==
    IF rain THEN 5
    ELSE IF Drizzle(c, q, rain, vs) THEN (IF cold THEN 2 ELSE 1)
    ELSE IF WouldBeDrizzle(c, q, rain) THEN 3
    ELSE IF WarmLiquid(c) THEN 4
    ELSE 0
=============================================================================
