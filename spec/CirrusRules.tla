----------------------------- MODULE CirrusRules -----------------------------
(* C27: how much of the cloud fraction of the model a radar could have seen.  *)
(* cf in percent, ice and liquid water contents and the smallest detectable   *)
(* ice water content (lim) in micrograms per cubic metre.  The ice of a box   *)
(* is spread as a gamma distribution around its in-cloud mean (shape 10 for   *)
(* the resolution these rules are made for); only what exceeds lim is seen.   *)
EXTENDS Integers, Sequences
FILL == -999999
(* 1e4 x the part of a gamma distribution (shape 10) above 0, 1, 2, ... means/10 *)
Above == <<10000, 10000, 10000, 9989, 9919, 9682, 9161, 8305, 7166, 5874, 4579, 3405, 2424, 1658, 1094, 699, 433, 261, 154, 89, 50, 28, 15, 8, 4, 2, 1, 1, 0, 0, 0>>
Seen(x100) == LET i == x100 \div 100
              IN IF i >= 30 THEN 0 ELSE Above[i + 1] - ((Above[i + 1] - Above[i + 2]) * (x100 % 100)) \div 100
IsIce(cf, ice, liquid) == cf # FILL /\ cf > 0 /\ ice > 0 /\ 10 * liquid < ice
(* in hundredths of a tenth of the mean *)
Relative(cf, ice, lim) == (10 * lim * cf) \div ice
Part(cf, ice, lim) == IF lim > 1000 * (ice \div cf + 1) THEN 0 ELSE Seen(Relative(cf, ice, lim))
(* 1e-4; less than 0.05 is no cloud *)
Filtered(cf, ice, liquid, lim) ==
    IF cf = FILL \/ cf < 5 THEN FILL
    ELSE IF ~IsIce(cf, ice, liquid) THEN 100 * cf
    ELSE LET x == (cf * Part(cf, ice, lim)) \div 100 IN IF x < 500 THEN FILL ELSE x
=============================================================================
