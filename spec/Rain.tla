--------------------------------- MODULE Rain ---------------------------------
(* Is it raining?  Evidence about one profile arrives from the radar, from   *)
(* the disdrometer and from the ground (present weather, wet-bulb            *)
(* temperature); amount is judged by the best instrument at hand and the     *)
(* phase by the present weather sensor or else by temperature.               *)
EXTENDS Naturals
VARIABLES echo, disdrometer, weather, warm, rain
vars == <<echo, disdrometer, weather, warm, rain>>
Echoes == {"none", "weak", "rising", "depolarised", "depolarisation unknown", "unpolarised", "rain"}
Disdrometers == {"absent", "missing", "dry", "drizzle", "few", "rain"}
Weathers == {"absent", "missing", "dry", "solid", "liquid"}
Unknown == "?"
Init == echo = Unknown /\ disdrometer = Unknown /\ weather = Unknown /\ warm = Unknown /\ rain = Unknown
Radar == echo = Unknown /\ echo' \in Echoes /\ UNCHANGED <<disdrometer, weather, warm, rain>>
Drops == disdrometer = Unknown /\ disdrometer' \in Disdrometers /\ UNCHANGED <<echo, weather, warm, rain>>
(* no present weather without a disdrometer *)
Ground == /\ weather = Unknown /\ disdrometer # Unknown
          /\ weather' \in (IF disdrometer = "absent" THEN {"absent"} ELSE Weathers)
          /\ UNCHANGED <<echo, disdrometer, warm, rain>>
Temperature == warm = Unknown /\ warm' \in {"warm", "cold"} /\ UNCHANGED <<echo, disdrometer, weather, rain>>
(* nothing is said of an echo without its depolarisation ratio *)
Amounts == IF disdrometer \notin {"absent", "missing"} THEN {disdrometer = "rain"}
           ELSE IF echo = "depolarisation unknown" THEN BOOLEAN ELSE {echo \in {"rain", "unpolarised"}}
Liquid == IF weather \in {"absent", "missing"} THEN warm = "warm" ELSE weather = "liquid"
Decide == /\ rain = Unknown
          /\ \A x \in {echo, disdrometer, weather, warm} : x # Unknown
          /\ \E a \in Amounts : rain' = IF a /\ Liquid THEN "yes" ELSE "no"
          /\ UNCHANGED <<echo, disdrometer, weather, warm>>
Next == Radar \/ Drops \/ Ground \/ Temperature \/ Decide
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NoRainInSnow == rain = "yes" => weather # "solid" /\ (warm = "cold" => weather = "liquid")
DisdrometerDecides == (rain = "yes" /\ disdrometer \notin {"absent", "missing"}) => disdrometer = "rain"
RadarOtherwise == (rain = "yes" /\ disdrometer \in {"absent", "missing"}) => echo \in {"rain", "unpolarised", "depolarisation unknown"}
SureRain == (rain = "no") => ~(echo = "rain" /\ disdrometer = "rain" /\ weather = "liquid" /\ warm = "warm")
Decided == <>(rain # Unknown)
=============================================================================
