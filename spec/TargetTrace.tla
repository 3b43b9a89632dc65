------------------------------ MODULE TargetTrace -----------------------------
(* Judges the target classification of a profile: c, q the bits of its       *)
(* gates and out the class reported for each.                                *)
EXTENDS TraceBase, Pixels
Table == [c \in 0..63 |-> [q \in {0, 4} |-> Target(c, q)]]
ClutterOnly(q) == IF Clutter(q) THEN 4 ELSE 0
Judge(e) ==
    C("ONE_CLASS_PER_PIXEL", Len(e.out) = Len(e.c) /\ \A i \in 1..Len(e.out) : e.out[i] \in 0..10)
    \cup C("CLASS_OF_OWN_BITS", Len(e.out) # Len(e.c) \/ \A i \in 1..Len(e.out) : e.out[i] = Table[e.c[i]][ClutterOnly(e.q[i])])
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
