----------------------------- MODULE NoiseTrace -----------------------------
(* One day of a lidar.  R: calibrated backscatter given (1e-11 sr-1 m-1), D:   *)
(* ratio of the polarised signals (1e-4, -888888 where the divisor is 0);      *)
(* rows: numbers of the profiles in the file; braw, beta, bsm, draw, dep: what *)
(* is in the file; smoothed: the mask of the smoothed backscatter is used;     *)
(* physical: all screened values are positive and finite                       *)
EXTENDS TraceBase
R == INSTANCE NoiseRules WITH Share <- 10, Skip <- 5, Window <- 95, LowGates <- 20, Low <- 800000, FogLow <- 200000,
     FogSum <- 100000000, FogSd <- 3162, NoNoise <- 0, Big <- 100000000, Cloud <- 100000
F == R!FILL
Same(a, b) == a # F /\ Abs(a - b) <= 1 + Abs(b) \div 50000
AllT(n, p(_)) == \A t \in 1..n : p(t)
Screened(e) ==
    LET n == Len(e.R)
        N == Len(e.R[1])
        snr(g) == IF e.rc \/ g > e.last THEN 5000 ELSE 833
        one(g) == 1
        raw == TLCEval([t \in 1..n |-> R!Screen(R!Undo(e.R[t], e.fac, e.pos, e.last), e.R[t], e.nneg, e.nmin, snr, one)])
        unsure(t) == \E g \in 1..N : e.R[t][g] # F /\ e.R[t][g] > 99000 /\ e.R[t][g] < 101000
        U == {t \in 1..n : unsure(t)}
        free == {t \in 1..n : \A u \in U : Abs(t - u) > R!Reach(e.st)}
        cloud(t, g) == e.R[t][g] > 100000
        S == R!Smoothed(e.R, e.st, e.sg, cloud)
        gaps == \E t \in 1..n : \E g \in 1..N : e.R[t][g] = F
        plain == e.st = 1 /\ e.sg = 1
        w(t, g) == IF e.R[t][g] = F THEN 0 ELSE 10000
        W == IF gaps /\ ~plain THEN R!Smooth(R!Rows(n, N, w), e.st, e.sg) ELSE <<>>
        tol(t, g) == IF plain THEN 1 ELSE IF ~gaps THEN 60 ELSE 600000 \div Max2(W[t][g], 1)
        sm == TLCEval([t \in 1..n |->
                IF t \notin free THEN [g \in 1..N |-> IF e.R[t][g] = F THEN "m" ELSE "a"]
                ELSE LET T == TLCEval([g \in 1..N |-> tol(t, g)])
                         X == R!Undo(T, e.fac, e.pos, e.last)
                         u(g) == IF plain THEN 1 ELSE 2 + X[g]
                     IN R!Screen(R!Undo(S[t], e.fac, e.pos, e.last), e.R[t], e.nneg, e.nsm, snr, u)])
        fin(t, g) == IF e.R[t][g] = F \/ e.R[t][g] <= 0 THEN "m" ELSE IF e.smoothed THEN sm[t][g] ELSE raw[t][g]
        lit(t) == LET h(g) == fin(t, g) = "k" IN R!Sunlit(h, N, e.low)
        maylit(t) == LET h(g) == fin(t, g) # "m" IN R!Sunlit(h, N, e.low)
        out == {e.rows[j] : j \in 1..Len(e.rows)}
        cells(p(_, _, _)) == \A j \in 1..Len(e.rows) : \A g \in 1..N : p(j, e.rows[j], g)
        pRaw(j, t, g) == IF e.R[t][g] = F THEN e.braw[j][g] = F ELSE Same(e.braw[j][g], e.R[t][g])
        pSame(j, t, g) == e.beta[j][g] = F \/ (e.R[t][g] # F /\ Same(e.beta[j][g], e.R[t][g]))
        pKept(j, t, g) == fin(t, g) = "k" => e.beta[j][g] # F
        pGone(j, t, g) == fin(t, g) = "m" => e.beta[j][g] = F
        pSmooth(j, t, g) ==
            /\ sm[t][g] = "k" => e.bsm[j][g] # F
            /\ sm[t][g] = "m" => e.bsm[j][g] = F
            /\ (t \in free /\ e.bsm[j][g] # F) => Abs(e.bsm[j][g] - S[t][g]) <= tol(t, g) + Abs(S[t][g]) \div 50000
        pDepRaw(j, t, g) == IF e.D[t][g] = F \/ e.D[t][g] = NAN THEN e.draw[j][g] = F ELSE Near(e.draw[j][g], e.D[t][g], 1)
        pDep(j, t, g) ==
            LET d == e.D[t][g]
                ok == d # F /\ d # NAN /\ d > 0 /\ d <= 10000 /\ (e.smoothed => e.beta[j][g] # F)
            IN IF ok THEN e.dep[j][g] # F /\ Near(e.dep[j][g], d, 1) ELSE e.dep[j][g] = F
    IN IF e.status # "ok" THEN C("WORKS", \A t \in 1..n : maylit(t))
       ELSE C("PHYSICAL", e.physical)
            \cup C("SUNBEAM", \A t \in 1..n : (lit(t) => t \notin out) /\ (~maylit(t) => t \in out))
            \cup C("CALIBRATED", cells(pRaw) /\ e.factor)
            \cup C("UNCHANGED", cells(pSame))
            \cup C("KEPT", cells(pKept)) \cup C("REMOVED", cells(pGone))
            \cup C("SMOOTH", cells(pSmooth))
            \cup (IF Len(e.D) = 0 THEN {} ELSE C("DEPOL_RAW", cells(pDepRaw)) \cup C("DEPOL", cells(pDep)))
(* PollyXT: the instrument reports the signal-to-noise itself (snr, limit: 0.1) *)
Polly(e) ==
    LET n == Len(e.R)
        N == Len(e.R[1])
        some(t) == \E g \in 1..N : e.R[t][g] # F
        rows == {e.rows[j] : j \in 1..Len(e.rows)}
        cells(p(_, _, _)) == \A j \in 1..Len(e.rows) : \A g \in 1..N : p(j, e.rows[j], g)
        seen(t, g) == e.snr[t][g] >= e.limit
        raw(j, t, g) == IF e.R[t][g] = F THEN e.braw[j][g] = F ELSE Same(e.braw[j][g], e.R[t][g])
        beta(j, t, g) == IF e.R[t][g] # F /\ seen(t, g) /\ e.R[t][g] >= 0 THEN Same(e.beta[j][g], e.R[t][g]) ELSE e.beta[j][g] = F
        draw(j, t, g) == IF e.D[t][g] = F THEN e.draw[j][g] = F ELSE Near(e.draw[j][g], e.D[t][g], 1)
        dep(j, t, g) == IF e.D[t][g] # F /\ seen(t, g) /\ e.D[t][g] >= 0 /\ e.D[t][g] <= 10000 THEN Near(e.dep[j][g], e.D[t][g], 1) ELSE e.dep[j][g] = F
    IN IF e.status # "ok" THEN C("WORKS", \A t \in 1..n : ~some(t))
       ELSE C("PROFILES", rows = {t \in 1..n : some(t)} /\ Len(e.rows) = Cardinality(rows))
            \cup C("PHYSICAL", e.physical)
            \cup C("CALIBRATED", cells(raw)) \cup C("SCREENED", cells(beta))
            \cup C("DEPOL_RAW", cells(draw)) \cup C("DEPOL", cells(dep))
            \cup C("WAVELENGTH", e.wavelength = e.channel)
            \cup C("FACTOR", \A j \in 1..Len(e.rows) : e.cal[j] = e.factors[e.rows[j]])
Judge(e) == IF e.ev = "polly" THEN Polly(e) ELSE Screened(e)
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
