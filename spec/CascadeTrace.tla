------------------------------ MODULE CascadeTrace -----------------------------
(* Judges every category bit of a whole small scene against the exact decisions  *)
(* of Cascade, LiquidLayers and the operators below.                             *)
(*  t: bins of the profiles;  h: gate heights (m);  alt, dz;  lo, hi: limits of  *)
(*  melting (0.1 mK from 0 degC);  mira;  cross: "ldr", "sldr" or "none";  hasw  *)
(*  z, v, w, x: echo (mdB), velocity, width (mm/s), depolarization (mdB), each    *)
(*  rounded down (the true value is 0.3 units above);  s: scatter of velocity;    *)
(*  tw: 0.1 mK;  k: backscatter (2^-30);  ip: insect probability (1e-6);          *)
(*  rain, lw: rain, water path (mg m-2) of each profile;  wa, ta, wb, tb:         *)
(*  nearest nonzero water paths and how far they are;  bits, clut: the outcome    *)
EXTENDS TraceBase, Cascade
L == INSTANCE LiquidLayers
T0 == 2731600
N(e) == Len(e.t)
M(e) == Len(e.h)
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
Pixels(e, Q(_, _)) == TLCEval(UNION {{P(x, y) : y \in {j \in 1..M(e) : Q(x, j)}} : x \in 1..N(e)})
(* ---- melting of one profile: gates, or {0} if the data do not tell -------- *)
Step(q, y) == IF y = Len(q) THEN 0 ELSE IF q[y] = FILL \/ q[y + 1] = FILL THEN 0 ELSE q[y + 1] - q[y]
Window(e, x) == LET W == {y \in 1..M(e) : e.tw[x][y] > T0 + e.lo /\ e.tw[x][y] < T0 + e.hi} IN IF W = {} THEN {} ELSE MinSet(W)..MaxSet(W)
Valid(q, W) == {y \in W : q[y] # FILL}
RECURSIVE RunTo(_, _, _)
RunTo(v, lo, j) == IF j < lo \/ v[j + 1] <= v[j] THEN 0 ELSE 1 + RunTo(v, lo, j - 1)
FromVelocity(e, x, W) ==
    LET lo == MinSet(W)
        hi == MaxSet(W)
        v == e.v[x]
        w == e.w[x]
        J == lo..(hi - 1)
        V == Valid(v, W)
        rise == IF e.hasw THEN 500 ELSE 2000
        (* with gaps or ties in the velocity only what no course of it could meet is certain *)
        possible == \E b \in V : v[b] < -2000 /\ \E t \in V : t > b /\ t < hi /\ v[t] - v[b] >= rise /\ (t - b) * e.dz > 50 /\ (t - b) * e.dz < 1000
    IN IF V # W \/ \E j \in J : v[j] = v[j + 1] THEN (IF possible THEN {0} ELSE {})
       ELSE LET run == TLCEval([j \in J |-> RunTo(v, lo, j)])
                long == MaxSet({run[j] : j \in J})
                top == MinSet({j \in J : run[j] = long})
                flat == {j \in lo..(top - 1) : run[j] = 0}
            IN IF flat = {} THEN {}
               ELSE LET base == MaxSet(flat)
                        deep == (top - base) * e.dz
                        two == (top - lo) + (base - lo)
                        half == two \div 2
                        from == IF two % 2 = 0 \/ half % 2 = 0 THEN half ELSE half + 1
                    IN IF (e.hasw /\ w[base] - w[top] = 200) \/ v[top] - v[base] \in {500, 2000} THEN {0}
                       ELSE IF /\ (e.hasw => w[base] - w[top] > 200)
                               /\ v[top] - v[base] > rise
                               /\ deep > 50 /\ deep < 1000 /\ v[base] < -2000
                            THEN (lo + from)..(top - 1) ELSE {}
MeltingGates(e, x) ==
    LET W == Window(e, x)
        q == e.x[x]
        v == e.v[x]
        seen == Valid(q, W)
        has == e.cross = "ldr"
    IN IF Cardinality(W) <= 1 \/ ~((has /\ Cardinality(seen) > 3) \/ Cardinality(Valid(v, W)) > 3) THEN {}
       ELSE IF ~has \/ seen = {} THEN FromVelocity(e, x, W)
       ELSE LET lo == MinSet(W)
                hi == MaxSet(W)
                most == MaxSet({q[y] : y \in seen})
                p == MinSet({y \in seen : q[y] = most})
                above == p..(IF p + 9 < hi THEN p + 9 ELSE hi)
                below == (IF p - 10 > lo THEN p - 10 ELSE lo)..(p - 1)
                sharp == MinSet({Step(q, y) : y \in above})
                steep == IF below = {} THEN 0 ELSE MaxSet({Step(q, y) : y \in below})
            IN IF sharp >= 0 \/ steep <= 0 THEN FromVelocity(e, x, W)
               ELSE IF (\E y \in above : 2 * Step(q, y) = sharp) \/ (\E y \in below : 2 * Step(q, y) = steep) THEN {0}
               ELSE LET base == MinSet({y \in below : 2 * Step(q, y) > steep})
                        top == MaxSet({y \in above : 2 * Step(q, y) < sharp})
                    IN IF q[p] - q[base] = 4000 THEN {0}
                       ELSE IF q[p] - q[base] > 4000 /\ q[p] >= -30000 /\ e.z[x][base] >= -25000 /\ e.v[x][base] < -1500
                            THEN (base + (p - base) \div 2)..top ELSE {}
Weight == <<199475, 176036, 120987, 64760, 26996, 8764, 2216, 436, 67>>
Fold(i, n) == LET r == (i - 1) % (2 * n) IN IF r < n THEN r + 1 ELSE 2 * n - r
(* sums of the weights of profiles with melting at the gate, smoothed in time *)
Smooth(e, raw, y) == TLCEval([x \in 1..N(e) |-> FoldLeft(LAMBDA a, d : IF y \in raw[Fold(x + d, N(e))] THEN a + Weight[Abs(d) + 1] ELSE a, 0,
                                                        <<-8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8>>)])
(* ---- freezing level (cm) --------------------------------------------------- *)
ZeroLevel(e, x) ==
    LET q == e.tw[x]
        Cold == {y \in 1..M(e) : q[y] < T0}
        y == MinSet(Cold)
    IN IF Cold = {} THEN 100 * (2 * e.h[M(e)] - e.h[M(e) - 1])
       ELSE IF y = 1 THEN 100 * e.h[1]
       ELSE 100 * e.h[y] - (100 * (e.h[y] - e.h[y - 1]) * (T0 - q[y])) \div (q[y - 1] - q[y])
Middle(e, G) ==
    LET s == SetToSortSeq(G, LAMBDA a, b : a < b)
        c == Len(s)
    IN IF c % 2 = 1 THEN 100 * e.h[s[(c + 1) \div 2]] ELSE 50 * (e.h[s[c \div 2]] + e.h[s[c \div 2 + 1]])
Span == 480
Levels(e, melt) == \* melt[x]: melting gates of the profile
    LET n == N(e)
        zero == TLCEval([x \in 1..n |-> ZeroLevel(e, x)])
        none == TLCEval({x \in 1..n : melt[x] = {}})
        (* a span of four hours around the profile without melting *)
        calm(x) == x > Span \div 2 /\ x + Span \div 2 <= n /\ \A j \in (1..n) \ none : j < x - Span \div 2 \/ j >= x + Span \div 2
        given == TLCEval([x \in 1..n |-> IF x \notin none THEN Middle(e, melt[x]) ELSE IF x \in {1, n} \/ calm(x) THEN zero[x] ELSE FILL])
        K == TLCEval({x \in 1..n : given[x] # FILL})
        before == [x \in 1..n |-> MaxSet({k \in K : k <= x})]
        after == [x \in 1..n |-> MinSet({k \in K : k >= x})]
    IN IF none = 1..n /\ \A x \in 1..n : zero[x] <= 100 * e.h[1] THEN [x \in 1..n |-> 0]
       ELSE TLCEval([x \in 1..n |-> LET a == before[x]
                                        b == after[x]
                                    IN IF a = b THEN given[a] ELSE given[a] + ((given[b] - given[a]) * (e.t[x] - e.t[a])) \div (e.t[b] - e.t[a])])
(* ---- droplets ---------------------------------------------------------------- *)
Positive(e, x) ==
    IF e.wa[x] = FILL /\ e.wb[x] = FILL THEN TRUE
    ELSE IF e.wa[x] = FILL THEN e.wb[x] > 0
    ELSE IF e.wb[x] = FILL \/ e.ta[x] = 0 THEN e.wa[x] > 0
    ELSE IF e.tb[x] = 0 THEN e.wb[x] > 0
    ELSE e.wa[x] * e.tb[x] + e.wb[x] * e.ta[x] > 0
Water(e, x) == \* interpolated water path, mg m-2 times 0.1
    IF e.wa[x] = FILL /\ e.wb[x] = FILL THEN 0
    ELSE IF e.wa[x] = FILL THEN e.wb[x]
    ELSE IF e.wb[x] = FILL \/ e.ta[x] = 0 THEN e.wa[x]
    ELSE IF e.tb[x] = 0 THEN e.wb[x]
    ELSE (e.wa[x] * e.tb[x] + e.wb[x] * e.ta[x]) \div (e.ta[x] + e.tb[x])
DropGates(e, x, frz, slack) ==
    IF ~Positive(e, x) THEN {}
    ELSE L!Corrected(L!Layers(e.k[x], e.dz, slack), TLCEval([y \in 1..M(e) |-> e.z[x][y] # FILL]), TLCEval([y \in 1..M(e) |-> P(x, y) \in frz]), e.dz)
(* gates of liquid layers with an echo that grows upwards and ends with the layer *)
Dominated(e, x, D) ==
    LET tops == {y \in D : y + 1 \notin D /\ y < M(e) /\ e.z[x][y + 1] = FILL}
        layer(y) == (MaxSet({b \in D : b <= y /\ b - 1 \notin D}))..y
        grows(G) == LET V == Valid(e.z[x], G) IN Cardinality(V) > 1 /\ e.z[x][MaxSet(V)] > e.z[x][MinSet(V)]
    IN UNION {IF grows(layer(y)) THEN layer(y) ELSE {} : y \in tops}
(* ---- insects ------------------------------------------------------------------ *)
PhiTable == <<50000, 51994, 53983, 55962, 57926, 59871, 61791, 63683, 65542, 67364, 69146, 70884, 72575, 74215, 75804, 77337, 78814, 80234, 81594, 82894, 84134, 85314, 86433, 87493, 88493, 89435, 90320, 91149, 91924, 92647, 93319, 93943, 94520, 95053, 95543, 95994, 96407, 96784, 97128, 97441, 97725, 97982, 98214, 98422, 98610, 98778, 98928, 99061, 99180, 99286, 99379, 99461, 99534, 99598, 99653, 99702, 99744, 99781, 99813, 99841, 99865, 99886, 99903, 99918, 99931, 99942, 99952, 99960, 99966, 99972, 99977, 99981, 99984, 99987, 99989, 99991, 99993, 99994, 99995, 99996, 99997>>
Upper(u) == IF u >= 4000 THEN 100000 ELSE LET i == u \div 50 + 1 IN PhiTable[i] + ((PhiTable[i + 1] - PhiTable[i]) * (u % 50)) \div 50
Phi(u) == (IF u >= 0 THEN Upper(u) ELSE 100000 - Upper(-u)) \div 10     \* u in 1/1000, result in 1e-4
Times(a, b) == (a * b) \div 10000
Taps == <<7979, 7821, 7366, 6665, 5794, 4840, 3884, 2995, 2219, 1579, 1080, 710, 448, 272, 158, 89, 48, 25, 12, 6, 3>>
TapSeq == [i \in 1..41 |-> i - 21]
SmoothV(e) ==
    LET n == N(e)
        m == M(e)
        v0 == TLCEval([x \in 1..n |-> TLCEval([y \in 1..m |-> IF e.v[x][y] = FILL THEN 0 ELSE e.v[x][y]])])
        inT == TLCEval([x \in 1..n |-> TLCEval([y \in 1..m |-> FoldLeft(LAMBDA a, d : a + Taps[Abs(d) + 1] * v0[Fold(x + d, n)][y], 0, TapSeq) \div 100007])])
    IN TLCEval([x \in 1..n |-> TLCEval([y \in 1..m |-> IF e.v[x][y] = FILL THEN FILL
                                        ELSE FoldLeft(LAMBDA a, d : a + Taps[Abs(d) + 1] * inT[x][Fold(y + d, m)], 0, TapSeq) \div 100007])])
Max3(a, b, c) == Max2(a, Max2(b, c))
InsectChance(e, sv, x, y) == \* set of acceptable values, 1e-4
    LET z == e.z[x][y]
        w == e.w[x][y]
        q == e.x[x][y]
        tw == e.tw[x][y]
        loose == Phi((tw - 2680000) \div 20)
        others0 == Times(Times(Phi((-20000 - z) \div 8), Phi((tw - 2740000) \div 10)), Times(IF e.hasw THEN Phi(((1000 - w) * 10) \div 3) ELSE 10000, Phi((sv[x][y] + 3500) \div 2)))
        others == IF e.mira THEN Times(others0, Phi((15000 - Water(e, x)) \div 5)) ELSE others0
        cross == IF q = FILL THEN 0 ELSE Phi((q + 25000) \div 5)
        narrow == IF e.hasw THEN Phi((300 - w) * 10) ELSE 10000
        scatter == IF e.s[x][y] = FILL THEN Phi((-30000 - z) \div 5) ELSE Phi(((e.s[x][y] - 200) * 20) \div 3)
        high == Times(cross, loose)
        total == Times(Times(Max2(cross, scatter), narrow), Phi((tw - 2650000) \div 30))
    IN IF e.cross = "ldr" THEN {Max2(high, others)}
       ELSE IF e.cross = "none" THEN {others}
       ELSE IF high > 9030 THEN {Max2(high, others)} ELSE IF high < 8970 THEN {Max2(total, others)} ELSE {Max2(total, others), Max2(high, others)}
(* ---- the whole scene ------------------------------------------------------------ *)
Limits(e) == {T0, T0 + e.lo, T0 + e.hi, T0 - 100000, T0 - 150000, T0 - 380000}
Bit(x, k) == (x \div (2 ^ k)) % 2 = 1
Observed(e, k) == Pixels(e, LAMBDA x, y : Bit(e.bits[x][y], k))
Rows(q) == TLCEval(UNION {{P(x, y) : y \in q[x]} : x \in DOMAIN q})
Judge(e) ==
    IF e.status # "ok" THEN {"PROCESSED"} ELSE
    LET n == N(e)
        m == M(e)
        raw == TLCEval([x \in 1..n |-> MeltingGates(e, x)])
        cols == TLCEval(UNION {raw[x] : x \in 1..n})
        sums == TLCEval([y \in cols |-> IF y = 0 THEN <<>> ELSE Smooth(e, raw, y)])
        tie == \E x \in 1..n : \E y \in 1..m : \E q \in Limits(e) : Near(e.tw[x][y], q, 1)
        vague == 0 \in cols \/ \E y \in cols \ {0} : \E x \in 1..n : Near(sums[y][x], 200000, 60)
    IN IF tie \/ vague THEN (IF PrintT("HIT UNCLEAR " \o (IF tie THEN "TW" ELSE IF 0 \in cols THEN "MELT" ELSE "SMOOTH")) THEN {} ELSE {}) ELSE
    LET melt == TLCEval([x \in 1..n |-> {y \in cols : sums[y][x] > 200000}])
        level == Levels(e, melt)
        edge == \E x \in 1..n : \E y \in 1..m : level[x] > 0 /\ Near(100 * e.h[y], level[x] - 100, 3)
        frz == Pixels(e, LAMBDA x, y : 100 * e.h[y] > level[x] - 100)
        rows1 == TLCEval([x \in 1..n |-> DropGates(e, x, frz, 1)])
        rows2 == [x \in 1..n |-> DropGates(e, x, frz, -1)]
        lwpTie == \E x \in 1..n : Near(e.lw[x], 5000, 1) \/ 0 \in {e.wa[x], e.wb[x]} \/ (/\ e.wa[x] # FILL /\ e.wb[x] # FILL /\ e.ta[x] # 0 /\ e.tb[x] # 0
                                                                 /\ Abs(e.wa[x] * e.tb[x] + e.wb[x] * e.ta[x]) <= e.ta[x] + e.tb[x])
        ipTie == \E x \in 1..n : \E y \in 1..m : Near(e.ip[x][y], 800000, 2)
    IN IF edge \/ lwpTie \/ ipTie \/ rows1 # rows2 THEN (IF PrintT("HIT UNCLEAR " \o (IF edge THEN "FREEZING" ELSE IF lwpTie THEN "LWP" ELSE IF ipTie THEN "INSECT" ELSE "LAYER")) THEN {} ELSE {}) ELSE
    LET drop == Rows(rows1)
        mlt == Rows(melt)
        z == Pixels(e, LAMBDA x, y : e.z[x][y] # FILL)
        b == Pixels(e, LAMBDA x, y : e.k[x][y] > 0)
        screened == TLCEval(AtOrAbove(drop, m) \cup AtOrAbove(mlt, m) \cup Pixels(e, LAMBDA x, y : e.rain[x] = 1))
        sv == SmoothV(e)
        i == TLCEval([z |-> z, b |-> b, frz |-> frz, mlt |-> mlt, drop |-> drop,
              ins |-> Pixels(e, LAMBDA x, y : e.ip[x][y] > 800000),
              clut |-> Pixels(e, LAMBDA x, y : y <= 10 /\ e.rain[x] = 0 /\ e.v[x][y] # FILL /\ e.v[x][y] >= -50 /\ e.v[x][y] < 50),
              cold |-> Pixels(e, LAMBDA x, y :
                          /\ P(x, y) \in b /\ P(x, y) \notin drop /\ e.tw[x][y] < T0 - 150000 /\ e.h[y] - e.alt >= 2000
                          /\ (e.h[y] - e.alt >= 4000 \/ Cardinality({j \in Max2(1, y - 5)..y : P(x, j) \in b}) <= 2)),
              dom |-> Rows(TLCEval([x \in 1..n |-> Dominated(e, x, rows1[x])])),
              scold |-> Pixels(e, LAMBDA x, y : e.tw[x][y] < T0 - 380000),
              mild |-> Pixels(e, LAMBDA x, y : e.tw[x][y] > T0 - 100000),
              hil |-> IF e.cross # "ldr" THEN {} ELSE Pixels(e, LAMBDA x, y : e.x[x][y] # FILL /\ e.x[x][y] >= -13000),
              allow |-> {x \in 1..n : e.lw[x] = FILL \/ e.lw[x] > 5000}])
        o == TLCEval(Decide(i, n, m, 10, 100))
    IN IF PrintT("HIT JUDGED") THEN
       C("INSECT_PROBABILITY", \A x \in 1..n : \A y \in 1..m :
            IF P(x, y) \notin z \/ P(x, y) \in screened THEN e.ip[x][y] = 0
            ELSE \E q \in InsectChance(e, sv, x, y) : Near(100 * q, e.ip[x][y], 4000))
       \cup C("DROPLETS", Observed(e, 0) = o.drop) \cup C("FALLING", Observed(e, 1) = o.fal) \cup C("FREEZING", Observed(e, 2) = o.frz)
       \cup C("MELTING", Observed(e, 3) = o.mlt) \cup C("AEROSOL", Observed(e, 4) = o.aer) \cup C("INSECTS", Observed(e, 5) = o.ins)
       \cup C("CLUTTER", Pixels(e, LAMBDA x, y : e.clut[x][y] = 1) = o.clut)
       ELSE {}
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
