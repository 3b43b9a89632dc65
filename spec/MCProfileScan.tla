---------------------------- MODULE MCProfileScan -----------------------------
EXTENDS ProfileScan, Json, TLC
(* no radar; radar alone; lidar alone; radar corrected with all amounts;     *)
(* radar with one corrected and one uncorrected source; no radar attenuated  *)
MCKinds == {[q |-> 0, att |-> 0], [q |-> 1, att |-> 0], [q |-> 2, att |-> 16000], [q |-> 49, att |-> 4000], [q |-> 51, att |-> 10000],
            [q |-> 193, att |-> 15000], [q |-> 769, att |-> 15125], [q |-> 113, att |-> 16000], [q |-> 17, att |-> 0]}
Emit == Len(gates) < MaxGates \/ PrintT("CASE " \o ToJson([gates |-> gates, heavy |-> heavy]))
=============================================================================
