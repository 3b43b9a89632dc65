------------------------------ MODULE AttenTrace ------------------------------
(* Judges quality bits, attenuation amounts and reflectivity of one profile  *)
(* of a categorize product.  Amounts and reflectivities in mdB, FILL missing.*)
(*  zin: measured reflectivity;  z, zerr: stored reflectivity and its error  *)
(*  beta: 1 where backscatter is stored;  q: quality bits                    *)
(*  drop, frz, melt: category bits;  rain: profile flagged rainy             *)
(*  fall: falling;  slow: |v| at most 0.05 m/s (2: surely less)               *)
(*  gas, liq, rat, mel: stored amounts;  agl: height above ground (m)        *)
(*  dis: disdrometer in use;  rate: rainfall rate, um h-1 (FILL missing)     *)
(*  gam: specific rain attenuation of that rate, mdB km-1 (FILL unknown)     *)
(*  wband;  lwp: g m-2 * 100 (FILL missing or no radiometer)                 *)
(*  kmin, kmax: specific attenuation of liquid in the droplet gates,         *)
(*  1e-3 dB km-1 (g m-3)-1                                                   *)
EXTENDS TraceBase, Log10
N(e) == Len(e.q)
Q(e, i, k) == (e.q[i] \div (2 ^ k)) % 2 = 1
Radar(e, i) == Q(e, i, 0)
Amt(x) == IF x = FILL THEN 0 ELSE x
DropBelow(e, i) == \E j \in 1..i : e.drop[j] = 1
MeltBelow(e, i) == \E j \in 1..i : e.melt[j] = 1
FrzBelow(e, i) == \E j \in 1..i : e.frz[j] = 1
Uncorrected(e, i) == \E k \in {4, 6, 8} : Q(e, i, k) /\ ~Q(e, i, k + 1)
All(e, P(_)) == \A i \in 1..N(e) : P(i)
Grows(e, x) == \A i \in 1..(N(e) - 1) : Amt(x[i + 1]) >= Amt(x[i]) - 2
FirstFrz(e) == LET S == {i \in 1..N(e) : e.frz[i] = 1} IN IF S = {} THEN N(e) + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
Flags(e, k, amount) ==
    /\ All(e, LAMBDA i : Q(e, i, k + 1) => Q(e, i, k) /\ amount[i] # FILL)
    /\ All(e, LAMBDA i : amount[i] # FILL => Q(e, i, k + 1))
(* melting layer: a R^b, with R in mm/h (Li and Moisseev 2019)               *)
MeltLg(e) == LET r == Lg(e.rate) - 300000 IN IF e.wband THEN 46240 + (42 * r) \div 100 ELSE -1323 + (61 * r) \div 100
Judge(e) ==
    C("PROCESSED", N(e) > 0)
    \cup C("SHAPES", \A s \in {e.zin, e.z, e.zerr, e.beta, e.drop, e.frz, e.melt, e.gas, e.liq, e.rat, e.mel, e.agl} : Len(s) = N(e))
    \cup C("RADAR_BIT", All(e, LAMBDA i : Radar(e, i) <=> e.z[i] # FILL))
    \cup C("LIDAR_BIT", All(e, LAMBDA i : Q(e, i, 1) <=> e.beta[i] = 1))
    \cup C("CLUTTER_BIT", All(e, LAMBDA i : Q(e, i, 2) => Radar(e, i) /\ ~e.rain /\ i <= 10 /\ e.slow[i] >= 1))
    \cup C("CLUTTER_FOUND", All(e, LAMBDA i : (i <= 10 /\ e.slow[i] = 2 /\ Radar(e, i) /\ ~e.rain) => (Q(e, i, 2) \/ e.fall[i] = 1 \/ e.drop[i] = 1)))
    \cup C("NO_MOLECULAR", All(e, LAMBDA i : ~Q(e, i, 3)))
    \cup C("LIQUID_FLAGS", Flags(e, 4, e.liq))
    \cup C("RAIN_FLAGS", Flags(e, 6, e.rat))
    \cup C("MELTING_FLAGS", Flags(e, 8, e.mel))
    \cup C("LIQUID_WHERE", All(e, LAMBDA i : Q(e, i, 4) <=> (DropBelow(e, i) /\ ~e.rain)))
    \cup C("LIQUID_CORRECTED", All(e, LAMBDA i : Q(e, i, 5) <=> (Q(e, i, 4) /\ e.lwp # FILL)))
    \cup C("RAIN_WHERE", All(e, LAMBDA i : Q(e, i, 6) <=> e.rain))
    \cup C("RAIN_CORRECTED", e.rain => All(e, LAMBDA i : Q(e, i, 7) => e.dis /\ e.rate # FILL /\ e.rate > 0))
    \cup C("RAIN_KNOWN", (e.rain /\ e.dis /\ e.rate # FILL /\ e.rate > 100) => All(e, LAMBDA i : (\E j \in 1..i : e.frz[j] = 0) => Q(e, i, 7)))
    \cup C("MELTING_WHERE", All(e, LAMBDA i : Q(e, i, 8) => e.rain /\ e.frz[i] = 1))
    \cup C("MELTING_WITHOUT_DISDROMETER", ~e.dis => All(e, LAMBDA i : (Q(e, i, 8) <=> (e.rain /\ e.frz[i] = 1 /\ MeltBelow(e, i))) /\ ~Q(e, i, 9)))
    \cup C("MELTING_WITH_DISDROMETER", (e.dis /\ e.rain /\ (e.rate = FILL \/ e.rate > 0)) => All(e, LAMBDA i : e.frz[i] = 1 => (Q(e, i, 8) /\ (Q(e, i, 9) <=> e.rate # FILL))))
    \cup C("NOT_NEGATIVE", All(e, LAMBDA i : \A x \in {e.gas[i], e.liq[i], e.rat[i], e.mel[i]} : x = FILL \/ x >= 0))
    \cup C("GAS_EVERYWHERE", All(e, LAMBDA i : e.gas[i] # FILL /\ e.gas[i] > 0))
    \cup C("GROWING", Grows(e, e.gas) /\ Grows(e, e.liq) /\ Grows(e, e.rat) /\ Grows(e, e.mel))
    \cup C("REFLECTIVITY", All(e, LAMBDA i : e.z[i] # FILL =>
              (e.zin[i] # FILL /\ Near(e.z[i], e.zin[i] + Amt(e.gas[i]) + Amt(e.liq[i]) + Amt(e.rat[i]) + Amt(e.mel[i]), 6))))
    \cup C("ERROR_MASKED", All(e, LAMBDA i : Uncorrected(e, i) => e.zerr[i] = FILL))
    \cup C("ERROR_KNOWN", All(e, LAMBDA i : (e.z[i] # FILL /\ ~Uncorrected(e, i)) => (e.zerr[i] # FILL /\ e.zerr[i] >= 0)))
    (* error of each correction is part of the error *)
    \cup C("ERROR_COVERS", All(e, LAMBDA i : e.zerr[i] # FILL =>
              /\ e.zerr[i] + 2 >= Amt(e.gas[i]) \div 10
              /\ e.zerr[i] + 2 >= Amt(e.rat[i]) \div 5
              /\ e.zerr[i] + 2 >= Amt(e.mel[i]) \div (IF e.wband THEN 10 ELSE 5)))
    \cup C("RAIN_AMOUNT", (e.gam # FILL /\ e.rain) => All(e, LAMBDA i : (e.rat[i] # FILL) =>
              LET top == IF FirstFrz(e) > i THEN i ELSE Max2(FirstFrz(e) - 1, 1)
                  want == 2 * ((e.gam * e.agl[top]) \div 1000)
              IN Near(e.rat[i], want, 4 + want \div 200)))
    \cup C("MELTING_AMOUNT", All(e, LAMBDA i : (e.mel[i] # FILL /\ e.mel[i] > 20 /\ e.rate # FILL /\ e.rate > 20) =>
              Near(Lg(e.mel[i]) - 300000, MeltLg(e), 1500)))
    \cup C("LIQUID_AMOUNT", (e.lwp # FILL /\ ~e.rain /\ DropBelow(e, N(e)) /\ e.kmax > 0) =>
              LET l == Max2(e.lwp, 0) \div 100 IN        \* g m-2
              /\ e.liq[N(e)] # FILL
              /\ e.liq[N(e)] >= (2 * l * e.kmin) \div 1000 - 3 - e.liq[N(e)] \div 50
              /\ e.liq[N(e)] <= (2 * (l + 1) * e.kmax) \div 1000 + 3 + e.liq[N(e)] \div 50)
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
