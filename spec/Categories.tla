----------------------------- MODULE Categories ------------------------------
(* The meaning of the category bits of one pixel, given what was measured    *)
(* there.  Temperatures in mK, heights in m.                                 *)
(*  a.z, a.b   a radar echo / a lidar signal is present                      *)
(*  a.tw       wet-bulb temperature;  a.agl height above ground              *)
(*  bits       set of names                                                  *)
EXTENDS Integers
T0 == 273155                  \* 273.15 K or 273.16 K: both are in use
Tol == 12                     \* covers both, and single precision
Droplet == "droplet"  Falling == "falling"  Freezing == "freezing"
Melting == "melting"  Aerosol == "aerosol"  Insect == "insect"
AllBits == {Droplet, Falling, Freezing, Melting, Aerosol, Insect}

(* Pairs that exclude each other.                                            *)
Exclusive(bits) ==
    /\ ~({Aerosol, Falling} \subseteq bits)
    /\ ~({Aerosol, Droplet} \subseteq bits)
    /\ ~({Insect, Falling} \subseteq bits)
    /\ ~({Insect, Droplet} \subseteq bits)
(* Aerosol is what is left of the lidar signal.                              *)
AerosolRight(a, bits) == Aerosol \in bits <=> (a.b /\ Falling \notin bits /\ Droplet \notin bits)
(* Supercooled droplets freeze at the latest at -38 degC.                    *)
NoSuperCold(a, bits) == Droplet \in bits => a.tw >= T0 - 38000 - Tol
(* Insects are seen by the radar, and not in air colder than -10 degC.       *)
InsectRight(a, bits) == Insect \in bits => a.z /\ (a.tw >= T0 - 10000 - Tol \/ Freezing \notin bits)
(* Falling particles are radar echoes, or cold lidar echoes well above       *)
(* ground, which are ice, or frozen droplets.                                *)
FallingRight(a, bits) ==
    (Falling \in bits /\ ~a.z) =>
        \/ a.b /\ a.tw < T0 - 15000 + Tol /\ a.agl >= 2000
        \/ a.tw < T0 - 38000 + Tol
(* Every radar echo that is not clutter is explained by some target, except  *)
(* isolated cold speckle.                                                    *)
EchoExplained(a, bits, clutter) ==
    (a.z /\ ~clutter) => bits \intersect {Falling, Insect, Droplet} # {} \/ Freezing \in bits
(* Nothing is reported where nothing was measured.                           *)
SomethingSeen(a, bits) == (~a.z /\ ~a.b) => bits \intersect {Aerosol, Insect} = {} /\ (Falling \in bits => a.tw < T0 - 38000 + Tol)
ClutterRight(a, bits, clutter) == clutter => a.z /\ Falling \notin bits /\ Droplet \notin bits
PixelOK(a, bits, clutter) ==
    /\ Exclusive(bits) /\ AerosolRight(a, bits) /\ NoSuperCold(a, bits) /\ InsectRight(a, bits)
    /\ FallingRight(a, bits) /\ EchoExplained(a, bits, clutter) /\ SomethingSeen(a, bits) /\ ClutterRight(a, bits, clutter)
=============================================================================
