----------------------------- MODULE MCProvenance -----------------------------
EXTENDS Provenance, TLC, Json
(* raw files come in a fixed order; the workflow is what varies *)
Rank(k) == IF k = "radar" THEN 1 ELSE IF k = "lidar" THEN 2 ELSE IF k = "model" THEN 3 ELSE IF k = "mwr" THEN 4 ELSE 5
Ordered == \A i \in 1..(Len(files) - 1) : Rank(files[i].kind) <= Rank(files[i + 1].kind)
Last == files[Len(files)]
Emit == (Len(files) < MaxFiles \/ Last.kind \notin Derived)
        \/ PrintT("CASE " \o ToJson([i \in 1..Len(files) |-> [kind |-> files[i].kind, src |-> files[i].src, t |-> files[i].hist[IF files[i].kind = "model" THEN 2 ELSE 1][1]]]))
=============================================================================
