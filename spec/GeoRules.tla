------------------------------ MODULE GeoRules -------------------------------
(* C18: where the latitude, longitude and altitude of an instrument product   *)
(* come from.  Coordinates are integers (1e-5 degrees, or metres); a source   *)
(* is a sequence of values, <<>> when absent.                                 *)
(*                                                                            *)
(* Four sources in the order of trust: positions of a moving platform (GPS;   *)
(* never used for the altitude), what the user states of the site, variables  *)
(* of the raw file, global attributes of the raw file.  A source counts only  *)
(* if it holds something.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
FILL == -999999999
Valid(s) == {s[i] : i \in {j \in 1..Len(s) : s[j] # FILL}}
Zeroed(s) == [i \in 1..Len(s) |-> IF s[i] = 0 THEN FILL ELSE s[i]]
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Spread(s) == IF Valid(s) = {} THEN 0 ELSE MaxOf(Valid(s)) - MinOf(Valid(s))
RECURSIVE SumDev(_, _, _)
SumDev(s, base, i) == IF i > Len(s) THEN 0 ELSE (IF s[i] = FILL THEN 0 ELSE s[i] - base) + SumDev(s, base, i + 1)
Count(s) == Cardinality({j \in 1..Len(s) : s[j] # FILL})
Mean(s) == LET base == MinOf(Valid(s)) IN base + (SumDev(s, base, 1) \div Count(s))

HasGps(s) == \E x \in Valid(s) : x # 0      \* zeros are what a receiver without fix writes
HasAny(s) == Valid(s) # {}
(* The source that decides: "gps", "site", "file", "attr" or "none". *)
Source(gps, pos, site, var, attr) ==
    IF gps /\ HasGps(pos) THEN "gps"
    ELSE IF HasAny(site) THEN "site"
    ELSE IF HasAny(var) THEN "file"
    ELSE IF HasAny(attr) THEN "attr"
    ELSE "none"
Chosen(gps, pos, site, var, attr) ==
    LET s == Source(gps, pos, site, var, attr)
    IN IF s = "gps" THEN Zeroed(pos) ELSE IF s = "site" THEN site ELSE IF s = "file" THEN var
       ELSE IF s = "attr" THEN attr ELSE <<>>
Wrap(lon) == [i \in 1..Len(lon) |-> IF lon[i] # FILL /\ lon[i] > 18000000 THEN lon[i] - 36000000 ELSE lon[i]]
(* A kilometre is about 0.01 degrees of latitude.  Spreads close to that are  *)
(* left open.                                                                 *)
Stationary(lat, lon) == Spread(lat) <= 500 /\ Spread(lon) <= 500
Moving(lat, lon) == Spread(lat) >= 2000 \/ Spread(lon) >= 8000
(* Heights: ranges along the beam (whole metres), projected to the vertical,   *)
(* above sea level; decimetres.  Versine of whole degrees x 1e6.               *)
Versine == <<0, 152, 609, 1370, 2436, 3805, 5478, 7454, 9732, 12312, 15192, 18373, 21852, 25630, 29704, 34074, 38738, 43695, 48943, 54481, 60307>>
Height(range, zenith, altitude) == 10 * range - ((range * Versine[zenith + 1]) \div 100000) + 10 * altitude
=============================================================================
