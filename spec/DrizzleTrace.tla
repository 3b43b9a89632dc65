----------------------------- MODULE DrizzleTrace -----------------------------
(* Judges one profile of the drizzle product.                                *)
(*  c, q: bits; rain (0 none, FILL missing); vs: v_sigma is known            *)
(*  z: mdBZ; b: beta (1e-7); dz: thickness of gates (m); v (mm/s)            *)
(*  w: spectral width (mm/s, 0 unknown), sig: v_sigma, wind (mm/s)           *)
(*  lut: [mu, do (log10 x 1e5), s (int), width (mm/s, by mu), lwf (per mille)*)
(*       by mu and do, termv (cm/s) by do, v (mm/s) by mu and do, ray]       *)
(*  Reported, FILL missing: dol, corr, s, n, lwc, lwf: log10 x 1e5; mu: x1000*)
(*  vd, va: mm/s; errs: lists of error fields, elin: errors of do, lwc, lwf, *)
(*  s, v as relative errors x 1000; ez, eb: relative errors of Z and beta    *)
EXTENDS TraceBase, Pixels, Log10

Rain(e) == e.rain # 0
Cold(e) == \E i \in 1..Len(e.c) : Melting(e.c[i])
Is(e, i) == Drizzle(e.c[i], e.q[i], Rain(e), e.vs[i] = 1)
LB(e, i) == Lg(e.b[i]) - 700000
LZ(e, i) == e.z[i] * 10 - 1800000
(* optical depth of the gate there and back, log10 x 1e5: 2 S beta dz log10 e*)
Att(e, i, s) == (((s * e.b[i] * e.dz[i]) \div 100) * 869) \div 1000
MuIdx(e, m) == {k \in 1..Len(e.lut.mu) : Near(m, e.lut.mu[k] * 1000, 1)}
(* gamma(3 + mu) / gamma(7 + mu) (3.67 + mu)^4                               *)
LShape(mu) == 4 * (Lg(367 + 100 * mu) - 200000) - Lg(mu + 3) - Lg(mu + 4) - Lg(mu + 5) - Lg(mu + 6)
(* columns of the look-up table that a diameter can belong to                *)
DoIdx(e, d) == LET n == Len(e.lut.do)
                   below == {k \in 1..n : e.lut.do[k] < d - 20}
                   maybe == {k \in 1..n : e.lut.do[k] <= d + 20}
               IN {Min2(n, k + 1) : k \in Cardinality(below)..Cardinality(maybe)}
(* mu follows from the spectral width, less the share of v_sigma that is due *)
(* to turbulence within the beam (0.5 deg) compared to 30 s of wind: 1/(R-1) *)
(* with R = ((30 wind + beam) / (wind + beam)) ^ (2/3)                       *)
RECURSIVE Up(_, _)
Up(e, i) == IF i = 0 THEN 0 ELSE e.dz[i] + Up(e, i - 1)
LogR(e, i) == LET b == (Up(e, i) * 87266) \div 10000
              IN (2 * (Lg(30 * e.wind + b) - Lg(e.wind + b))) \div 3
(* the factor x 1000: (x + 1000) / x = R                                     *)
RECURSIVE Bisect(_, _, _)
Bisect(lo, hi, r) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2
                          IN IF Lg(m + 1000) - Lg(m) >= r THEN Bisect(m, hi, r) ELSE Bisect(lo, m, r)
Turb(e, i) == Bisect(10, 5000, LogR(e, i))
MuOf(e, w) == Min2(Len(e.lut.mu), 1 + Cardinality({k \in 1..Len(e.lut.mu) : e.lut.width[k] > w}))
MuRange(e, i) == LET away == (Turb(e, i) * e.sig[i]) \div 1000
                 IN MuOf(e, e.w[i] - away + 2 + away \div 200)..MuOf(e, e.w[i] - away - 2 - away \div 200)
JudgeDrizzle(e, i) ==
    LET ks == MuIdx(e, e.mu[i])
    IN IF ks = {} THEN {"MU_FROM_TABLE"} ELSE
       LET k == CHOOSE x \in ks : TRUE
           mu == e.lut.mu[k]
           cols == DoIdx(e, e.dol[i])
           ss == {e.lut.s[k][j] : j \in 1..Len(e.lut.do)}
       IN C("MU_FROM_WIDTH", k \in MuRange(e, i))
          \cup C("S_FROM_TABLE", \E s \in ss : Near(e.s[i], Lg(s), 15))
          \cup C("DIAMETER", Near(4 * e.dol[i], LShape(mu) + 19612 + LZ(e, i) - LB(e, i) - e.corr[i] - e.s[i] - e.lut.ray, 200))
          \cup C("NUMBER", Near(e.n[i], LZ(e, i) + 6 * 56467 - 6 * e.dol[i], 100))
          \cup C("LWC", Near(e.lwc[i], 252288 + LB(e, i) + e.s[i] + e.dol[i] + Lg(mu + 3) - Lg(367 + 100 * mu) + 200000, 60))
          \cup C("FLUX", \E j \in cols : Near(e.lwf[i] - e.lwc[i], Lg(e.lut.lwf[k][j]) - 300000 + Lg(e.lut.termv[j]) - 200000, 40))
          \cup C("FALL_VELOCITY", \E j \in cols : Near(e.vd[i], -e.lut.v[k][j], 1))
          \cup C("AIR_VELOCITY", Near(e.va[i], e.v[i] - e.vd[i], 2))
(* squared errors x 10^6 from the squared relative errors of Z and beta      *)
Sq(x) == x * x
ErrZB(e, i, a, b, den) == (a * Sq(e.ez[i]) + b * Sq(e.eb)) \div den
SqNear(x, y2) == Near(Sq(x), y2, y2 \div 40 + 4 * x + 20)
JudgeErrors(e, i) ==
    LET tiny == e.dol[i] <= -500000
        small == e.dol[i] <= -400000
        exact == ~Near(e.dol[i], -500000, 20) /\ ~Near(e.dol[i], -400000, 20)
        do == e.elin[1][i] lwc == e.elin[2][i] lwf == e.elin[3][i] ss == e.elin[4][i] v == e.elin[5][i]
    IN IF ~exact THEN {} ELSE
       C("DIAMETER_ERROR", (small /\ SqNear(do, ErrZB(e, i, 1, 1, 16) + 62500))
                   \/ ((small => tiny) /\ SqNear(do, ErrZB(e, i, 4, 4, 49) + 4900)))
       \cup C("LWC_ERROR", (small /\ SqNear(lwc, ErrZB(e, i, 1, 9, 16)))
                   \/ ((small => tiny) /\ SqNear(lwc, ErrZB(e, i, 1, 36, 49))))
       \cup C("FLUX_ERROR", SqNear(lwf, IF tiny THEN ErrZB(e, i, 9, 1, 16) + 62500 ELSE IF small THEN ErrZB(e, i, 1, 1, 4) + 62500 ELSE ErrZB(e, i, 9, 16, 49) + 4900))
       \cup C("S_ERROR", SqNear(ss, ErrZB(e, i, 1, 1, 4)))
       \cup C("VELOCITY_ERROR", IF tiny THEN Near(v * 1000, Sq(do), 3 * do + 500) ELSE Near(v, do, 1))
JudgeProfile(e) ==
    LET n == Len(e.c)
        lists == <<e.dol, e.mu, e.s, e.n, e.lwc, e.lwf, e.vd, e.va>> \o e.errs \o e.elin
        shape == (\A x \in 1..Len(lists) : Len(lists[x]) = n) /\ Len(e.corr) = n /\ Len(e.status) = n
    IN C("ONE_VALUE_PER_PIXEL", shape)
       \cup IF ~shape THEN {} ELSE
            C("VALUE_EXACTLY_IN_DRIZZLE", \A x \in 1..Len(lists) : \A i \in 1..n : Is(e, i) <=> lists[x][i] # FILL)
            \cup C("STATUS", \A i \in 1..n : e.status[i] = DrizzleStatus(e.c[i], e.q[i], Rain(e), e.vs[i] = 1, Cold(e)))
            \cup C("CORRECTION_NOT_IN_RAIN", \A i \in 1..n : Rain(e) <=> e.corr[i] = FILL)
            \cup IF Rain(e) \/ (\E i \in 1..n : e.corr[i] = FILL \/ \E x \in 1..Len(lists) : (Is(e, i) /\ lists[x][i] = FILL)) THEN {} ELSE
                 C("CORRECTION_STARTS_AT_ONE", Near(e.corr[1], 0, 2))
                 \cup C("CORRECTION_GROWS_THROUGH_DRIZZLE", \A i \in 1..(n - 1) :
                        IF Is(e, i) THEN \E k \in MuIdx(e, e.mu[i]) : \E j \in 1..Len(e.lut.do) :
                                /\ Near(e.s[i], Lg(e.lut.s[k][j]), 15)
                                /\ Near(e.corr[i + 1] - e.corr[i], Att(e, i, e.lut.s[k][j]), 6 + Att(e, i, e.lut.s[k][j]) \div 500)
                        ELSE Near(e.corr[i + 1], e.corr[i], 1))
                 \cup UNION {JudgeDrizzle(e, i) \cup JudgeErrors(e, i) : i \in {j \in 1..n : Is(e, j)}}
Judge(e) ==
    IF e.kind = "profile" THEN JudgeProfile(e)
    ELSE C("UNSUPPORTED_BAND_IS_AN_ERROR", e.status # "ok" /\ ~e.exists)
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
