------------------------------- MODULE MCCirrus -------------------------------
(* A radar that loses sensitivity, step by step: the cloud can only shrink,    *)
(* clouds without ice stay.                                                     *)
EXTENDS CirrusRules, TLC
VARIABLES cf, ice, liquid, lim
vars == <<cf, ice, liquid, lim>>
Steps == <<0, 1, 5, 20, 60, 150, 400, 1000, 5000, 100000>>
Init == /\ cf \in {FILL, 1, 4, 5, 6, 20, 50, 100} /\ ice \in {0, 1, 10, 100, 1000, 20000} /\ liquid \in {0, 1, 9, 10, 100, 5000} /\ lim = 1
Next == /\ lim < Len(Steps) /\ lim' = lim + 1 /\ UNCHANGED <<cf, ice, liquid>>
Spec == Init /\ [][Next]_vars
Now == Filtered(cf, ice, liquid, Steps[lim])
Size(x) == IF x = FILL THEN 0 ELSE x
OnlyRemoves == (cf = FILL => Now = FILL) /\ Size(Now) <= 100 * Size(cf) /\ (Now = FILL \/ Now >= 500)
KeepsLiquid == (cf # FILL /\ cf >= 5 /\ ~IsIce(cf, ice, liquid)) => Now = 100 * cf
Perfect == (lim = 1 /\ cf # FILL /\ cf >= 5) => Now = 100 * cf
Blind == (lim = Len(Steps) /\ IsIce(cf, ice, liquid) /\ ice <= 20000 /\ cf = 100) => Now = FILL
Shrinks == [][Size(Filtered(cf, ice, liquid, Steps[lim'])) <= Size(Filtered(cf, ice, liquid, Steps[lim]))]_vars
Sane == \A i \in 1..30 : Above[i] >= Above[i + 1]
=============================================================================
