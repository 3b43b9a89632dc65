------------------------------- MODULE DerTrace -------------------------------
(* Judges one profile of the droplet effective radius product, or (kind      *)
(* "nolwp") the attempt to make it without any water path.                   *)
(*  c: category bits; z: reflectivity (mdBZ, FILL missing); dz: thickness of *)
(*  each gate (m); lwp: water path (g m-2, FILL missing); rain (0 none, FILL *)
(*  missing); par: parameters [lnn: log10 N x 10^5, sig, dsig: per mille,    *)
(*  dn: dN/N in per mille, cz: per mille, dq: dQ in 0.1 g m-2]               *)
(*  der, ders, n: log10 of the reported radius, scaled radius (m) and number *)
(*  (m-3) x 10^5, FILL missing; derr, derserr: error / value x 10^4          *)
(*  status                                                                   *)
EXTENDS TraceBase, Pixels, Log10

HasZ(e, i) == e.z[i] # FILL
Value(e, i) == DropletValue(e.c[i], HasZ(e, i))
HasLwp(e) == e.lwp # FILL /\ e.lwp > 0
Layer(e, i) == {j \in 1..Len(e.c) : \A k \in Min2(i, j)..Max2(i, j) : Droplet(e.c[k])}
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + Sum(S \ {x})
(* integral of sqrt(Z) over the layer, x 1000; Z is a multiple of 20 dB      *)
Root1000(z) == 10^((z + 60000) \div 20000)
Integral(e, i) == Sum({<<j, Root1000(e.z[j]) * e.dz[j]>> : j \in {k \in Layer(e, i) : HasZ(e, k)}})
(* k sigma^2 log10(e) x 10^5, in units of a half                             *)
Var(e, halves) == (((e.par.sig * e.par.sig) \div 10) * ((21715 * halves) \div 10)) \div 10000
TwentyDb(e, i) == \A j \in Layer(e, i) : HasZ(e, j) => e.z[j] % 20000 = 0 /\ e.z[j] >= -60000
Db(x) == x * 10   \* mdB -> log10 x 10^5
PredDer(e, i) == (Db(e.z[i]) - e.par.lnn) \div 6 - 30103 - Var(e, 1) - 300000
(* 3 log10(scaled radius)                                                    *)
PredDers3(e, i) == Db(e.z[i]) \div 2 + Lg(Integral(e, i)) - 300000 + 271900 - Var(e, 12) - 1800000 - 90309 - Lg(e.lwp) + 300000
PredN(e, i) == Db(e.z[i]) - 6 * (30103 + e.ders[i] + 300000 + Var(e, 1))
(* squared ratios, x 10^8 *)
Sq(x) == x * x
RatioOk(r, parts2) == Near(Sq(r), parts2, 12 * r + 200)
A1(e) == (e.par.dn * 10) \div 6
B1(e) == (e.par.sig * e.par.dsig) \div 100
JudgeProfile(e) ==
    LET n == Len(e.c)
        rain == e.rain # 0
        shape == Len(e.der) = n /\ Len(e.ders) = n /\ Len(e.n) = n /\ Len(e.status) = n /\ Len(e.derr) = n /\ Len(e.derserr) = n
    IN C("ONE_VALUE_PER_PIXEL", shape)
       \cup IF ~shape THEN {} ELSE
            C("VALUE_EXACTLY_IN_DROPLETS", \A i \in 1..n : Value(e, i) <=> e.der[i] # FILL)
            \cup C("ERROR_WHERE_VALUE", \A i \in 1..n : Value(e, i) <=> e.derr[i] # FILL)
            \cup C("STATUS", \A i \in 1..n : e.status[i] = DropletStatus(e.c[i], rain, HasZ(e, i)))
            \cup C("SCALED_EXACTLY_WITH_LWP", \A i \in 1..n : LET v == Value(e, i) /\ HasLwp(e) IN
                    (v <=> e.ders[i] # FILL) /\ (v <=> e.n[i] # FILL) /\ (v <=> e.derserr[i] # FILL))
            \cup C("VALUE_FROM_OWN_Z", \A i \in 1..n : (Value(e, i) /\ e.der[i] # FILL) => Near(e.der[i], PredDer(e, i), 20))
            \cup C("SCALED_VALUE_FROM_LAYER", \A i \in 1..n : (Value(e, i) /\ HasLwp(e) /\ e.ders[i] # FILL /\ TwentyDb(e, i)) =>
                    Near(3 * e.ders[i], PredDers3(e, i), 80))
            \cup C("SCALED_SHAPE", \A i, j \in 1..n : (Value(e, i) /\ HasLwp(e) /\ e.ders[i] # FILL /\ j \in Layer(e, i) /\ Value(e, j) /\ e.ders[j] # FILL) =>
                    Near(6 * (e.ders[i] - e.ders[j]), Db(e.z[i] - e.z[j]), 60))
            \cup C("NUMBER", \A i \in 1..n : (Value(e, i) /\ HasLwp(e) /\ e.ders[i] # FILL /\ e.n[i] # FILL) => Near(e.n[i], PredN(e, i), 60))
            \cup C("ERROR_VALUE", \A i \in 1..n : (Value(e, i) /\ e.derr[i] # FILL) => RatioOk(e.derr[i], Sq(A1(e)) + Sq(B1(e)) + Sq(e.par.cz)))
            \cup C("SCALED_ERROR_VALUE", \A i \in 1..n : (Value(e, i) /\ HasLwp(e) /\ e.derserr[i] # FILL /\ e.lwp >= 2 * e.par.dq) =>
                    RatioOk(e.derserr[i], Sq(4 * B1(e)) + Sq(e.par.cz) + Sq((e.par.dq * 1000) \div (3 * e.lwp))))
Judge(e) ==
    IF e.kind = "profile" THEN JudgeProfile(e)
    ELSE C("NO_PRODUCT_WITHOUT_WATER_PATH", e.status # "ok" /\ ~e.exists)
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
