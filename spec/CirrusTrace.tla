----------------------------- MODULE CirrusTrace -----------------------------
(* One L3 file of cloud fraction.  cf (percent), ice, liquid (ug m-3; of the    *)
(* box), mh, sfc, site (dm), oh (dm), lim (ug m-3 for each height of the        *)
(* observations, F: not known), radar: "Ka", "W", "X", "none";  table: shape of the           *)
(* distribution is 10;  cfout, out: 1e-4 (<<>>: not in the file)                *)
EXTENDS TraceBase
R == INSTANCE CirrusRules
G == INSTANCE GridRules
F == R!FILL
Tol(cf) == 2 * cf + 2
Box(e, i, k) ==
    LET h == G!AboveSea(e.mh, e.sfc, e.site)[i]
        L == {e.lim[z] : z \in {y \in 1..Len(e.oh) : G!InLevel(h, k, e.oh[y]) /\ e.lim[y] # F}}
        cf == e.cf[i][k]
        o == e.out[i][k]
        ice == R!IsIce(cf, e.ice[i][k], e.liquid[i][k])
    IN IF cf = F \/ cf < 5 THEN o = F
       ELSE IF ~ice THEN o # F /\ Abs(o - 100 * cf) <= 1
       ELSE /\ o = F \/ (o >= 499 /\ o <= 100 * cf + 1)
            /\ Cardinality(L) = 1 =>
                LET lim == CHOOSE x \in L : TRUE
                    x == (cf * R!Part(cf, e.ice[i][k], lim)) \div 100
                    all == R!Relative(cf, e.ice[i][k], lim) < 20 \/ lim = 0
                    nothing == lim > 10 * (e.ice[i][k] \div cf + 1) /\ R!Relative(cf, e.ice[i][k], lim) > 10000
                IN IF e.table THEN (o = F /\ x < 500 + Tol(cf)) \/ (o # F /\ Abs(o - x) <= Tol(cf))
                   ELSE (all => o # F /\ Abs(o - 100 * cf) <= Tol(cf)) /\ (nothing => o = F)
Judge(e) ==
    IF e.status # "ok" THEN {"WORKS"} ELSE
    LET any == \E i \in 1..Len(e.cf) : \E k \in 1..Len(e.cf[i]) : e.cf[i][k] >= 5 /\ R!IsIce(e.cf[i][k], e.ice[i][k], e.liquid[i][k])
        possible == any /\ e.radar \in {"Ka", "W"}
        cfok == \A i \in 1..Len(e.cf) : \A k \in 1..Len(e.cf[i]) :
                    IF e.cf[i][k] = F \/ e.cf[i][k] < 5 THEN e.cfout[i][k] = F ELSE Abs(e.cfout[i][k] - 100 * e.cf[i][k]) <= 1
    IN C("ORIGINAL", cfok)
       \cup (IF ~possible THEN C("NOT_MADE", e.out = <<>>)
             ELSE IF e.out = <<>> THEN {"MADE"}
             ELSE C("FILTER", \A i \in 1..Len(e.cf) : \A k \in 1..Len(e.cf[i]) : Box(e, i, k)))
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
