------------------------------- MODULE Pointing --------------------------------
(* Which profiles and pixels of a cloud radar get into its product.           *)
(* el, az: elevation and azimuth of profiles in hundredths of degrees (FILL:  *)
(* not known).  A profile counts when what is known says that the antenna     *)
(* points to the zenith and does not move; dEl, dAz: change between profiles  *)
(* (the first is compared with the second) from which the antenna moves.      *)
EXTENDS Integers, Sequences, FiniteSets
FILL == -999999
LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
Other(t) == IF t = 1 THEN 2 ELSE t - 1
Vertical(el, t) == el[t] = FILL \/ Abs(el[t] - 9000) < 110
Turn(a, b) == LET d == Abs(a - b) % 36000 IN IF d > 18000 THEN 36000 - d ELSE d
Still(s, t, lim, Dist(_, _)) == s[t] = FILL \/ s[Other(t)] = FILL \/ Dist(s[t], s[Other(t)]) < lim
Tilt(a, b) == Abs(a - b)
Kept(el, az, dEl, dAz) == {t \in 1..Len(el) : Vertical(el, t) /\ Still(el, t, dEl, Tilt) /\ Still(az, t, dAz, Turn)}
Enough(el, az, dEl, dAz) == Len(el) >= 2 /\ Cardinality(Kept(el, az, dEl, dAz)) >= 2
(* values that can not be angles are not known *)
Screen(s, lo, hi) == [t \in 1..Len(s) |-> IF s[t] < lo \/ s[t] > hi THEN FILL ELSE s[t]]
=============================================================================
