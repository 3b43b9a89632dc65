----------------------------- MODULE PointingTrace ------------------------------
(* Judges one conversion of a cloud radar.                                    *)
(*  radar: mira, copernicus, galileo, basta;  time (s), el, az (0.01 deg),    *)
(*  offel, offaz: corrections of the user;  tpow (0.01 W; empty: not there),  *)
(*  low: smallest power, times: factor of tpow                                *)
(*  snr, z, v, w, ldr (0.01; rows of profiles; as in the raw file, z in dB),  *)
(*  lim (0.01 dB): smallest SNR;  zoff: correction of z;  pol: polarisation   *)
(*  rng, roff: range of the raw file (m) and its correction;  valid: mask of  *)
(*  BASTA;  o...: the product (FILL where there is nothing)                   *)
EXTENDS TraceBase
P == INSTANCE Pointing
DEl == [mira |-> 1, copernicus |-> 50, galileo |-> 10]
DAz == [mira |-> 1, copernicus |-> 10, galileo |-> 10]
RECURSIVE Sum(_, _, _)
Sum(s, a, b) == IF a > b THEN 0 ELSE s[b] + Sum(s, a, b - 1)
Known(x, t, g) == x[t][g] # FILL
Judge(e) ==
    LET n == Len(e.time)
        powered == TLCEval(SelectSeq([t \in 1..n |-> t], LAMBDA t : e.tpow = <<>> \/ e.tpow[t] * e.times >= e.low))
        pick(s) == TLCEval([i \in 1..Len(powered) |-> s[powered[i]]])
        el0 == IF e.radar = "mira" THEN P!Screen(pick(e.el), -900, 18900) ELSE pick(e.el)
        az == IF e.radar = "mira" THEN P!Screen(pick(e.az), -39600, 39600) ELSE pick(e.az)
        el == TLCEval([i \in 1..Len(el0) |-> IF el0[i] = FILL THEN FILL ELSE el0[i] - e.offel])
        scans == e.radar # "basta"
        enough == IF scans THEN P!Enough(el, az, DEl[e.radar], DAz[e.radar]) ELSE n > 0
        keptset == IF ~scans \/ ~enough THEN 1..Len(powered) ELSE P!Kept(el, az, DEl[e.radar], DAz[e.radar])
        kept == TLCEval(SelectSeq([i \in 1..Len(powered) |-> i], LAMBDA i : i \in keptset))
        row(i) == powered[i]
        m == Len(e.rng)
        ok(g) == IF e.radar = "copernicus" THEN e.rng[g] + e.roff >= 0 ELSE IF e.radar = "galileo" THEN e.rng[g] > 0 ELSE TRUE
        gates == TLCEval(SelectSeq([g \in 1..m |-> g], ok))
        noise == IF e.radar = "copernicus" THEN TLCEval([t \in 1..n |-> Sum(e.snr[t], m - 49, m)]) ELSE [t \in 1..n |-> 0]
        \* 1: significant, 0: not, 2: too close to say
        signal(t, g) == CASE e.radar = "copernicus" -> LET d == 50 * e.snr[t][g] - noise[t] - 10000 IN IF d > 40 THEN 1 ELSE IF d < -40 THEN 0 ELSE 2
                          [] e.radar = "basta" -> e.valid[t][g]
                          [] OTHER -> IF e.snr[t][g] < e.lim THEN 0 ELSE 1
        low(g) == Cardinality({h \in 1..g : ok(h)}) <= 15
        good(t, g) == /\ Known(e.z, t, g) /\ Known(e.v, t, g)
                      /\ e.radar = "copernicus" => /\ Abs(e.v[t][g]) <= 900
                                                   /\ ~Known(e.w, t, g) \/ e.w[t][g] <= 300
                                                   /\ e.rng[g] >= 150
                      /\ e.radar = "galileo" => ~(low(g) /\ e.z[t][g] < -1500 /\ Known(e.ldr, t, g) /\ e.ldr[t][g] > -500)
                      /\ e.radar = "basta" => TRUE
        quality(t, g) == IF ~good(t, g) THEN 0 ELSE signal(t, g)
        anything == \E i \in 1..Len(kept) : \E j \in 1..Len(gates) : quality(row(kept[i]), gates[j]) # 0
        hasldr == e.ldr # <<>> /\ e.pol
        \* sum of the depolarisation of all significant echoes
        sumldr == IF ~hasldr \/ e.radar # "mira" THEN -1000000 ELSE
                  Sum([i \in 1..Len(powered) |-> Sum([g \in 1..m |-> IF e.ldr[powered[i]][g] # FILL /\ e.snr[powered[i]][g] >= e.lim THEN e.ldr[powered[i]][g] ELSE 0], 1, m)], 1, Len(powered))
        ldrok == hasldr /\ sumldr <= 0
        grid(o, x, off, tol, allowed) ==
            /\ Len(o) = Len(kept)
            /\ \A i \in 1..Len(kept) : Len(o[i]) = Len(gates) /\ \A j \in 1..Len(gates) :
                 LET t == row(kept[i]) g == gates[j] s == quality(t, g) IN
                 IF o[i][j] = FILL THEN s # 1 \/ ~allowed \/ ~Known(x, t, g)
                 ELSE s # 0 /\ allowed /\ Known(x, t, g) /\ Near(o[i][j], x[t][g] + off, tol)
    IN IF powered = <<>> \/ ~enough THEN C("NO_PROFILES", e.status = "ValidTimeStampError")
       ELSE IF ~anything THEN C("NO_SIGNAL", e.status = "RadarDataError")
       ELSE IF e.status # "ok" THEN {"CONVERTED"}
       ELSE C("PROFILES", e.otime = [i \in 1..Len(kept) |-> e.time[row(kept[i])]])
            \cup C("ANGLES", scans => /\ Len(e.ozen) = Len(kept) /\ Len(e.oaz) = Len(kept)
                                      /\ \A i \in 1..Len(kept) : /\ IF el[kept[i]] = FILL THEN e.ozen[i] = FILL ELSE Near(e.ozen[i], 9000 - el[kept[i]], 1)
                                                                 /\ IF az[kept[i]] = FILL THEN e.oaz[i] = FILL ELSE Near(e.oaz[i], az[kept[i]] + e.offaz, 1))
            \cup C("RANGE", e.orng = [j \in 1..Len(gates) |-> e.rng[gates[j]] + e.roff])
            \cup C("ECHO", grid(e.oz, e.z, e.zoff, 2, TRUE))
            \cup C("VELOCITY", grid(e.ov, e.v, 0, 1, TRUE))
            \cup C("WIDTH", e.w # <<>> => grid(e.ow, e.w, 0, 1, TRUE))
            \cup C("LDR", IF hasldr /\ Abs(sumldr) <= 5 * n * m THEN TRUE ELSE IF hasldr THEN grid(e.oldr, e.ldr, 0, 2, ldrok) ELSE e.oldr = <<>>)
            \cup C("SNR", e.snr # <<>> => grid(e.osnr, e.snr, 0, 2, TRUE))
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
