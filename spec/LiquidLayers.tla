----------------------------- MODULE LiquidLayers ------------------------------
(* Liquid layers in one lidar profile (Tuononen et al. 2019).  Backscatter k *)
(* is given per gate as integers (0 missing, unit 2^-30 m-1 sr-1), gates are *)
(* dz metres apart.                                                          *)
EXTENDS Integers, Sequences, FiniteSets
PeakLimit == 1074                 \* 1e-6 m-1 sr-1
Round(a, b) == (2 * a + b) \div (2 * b)
Gates(metres, dz) == Round(metres, dz)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Clip(i, n) == IF i < 1 THEN 1 ELSE IF i > n THEN n ELSE i
(* higher than the four gates on each side *)
IsPeak(k, i) ==
    /\ i > 1 /\ i < Len(k)
    /\ k[i] >= PeakLimit
    /\ \A d \in (-4..4) \ {0} : k[i] > k[Clip(i + d, Len(k))]
Peaks(k) == {i \in 1..Len(k) : IsPeak(k, i)}
(* change from gate i to the one above, if both have a value *)
Step(k, i) == IF k[i] = 0 \/ k[i + 1] = 0 THEN 0 ELSE k[i + 1] - k[i]
(* base: lowest gate within 200 m below the peak with a rise of more than a quarter of the steepest one *)
Below(k, p, dz) == (IF p - Gates(200, dz) < 1 THEN 1 ELSE p - Gates(200, dz))..(p - 1)
Steepest(k, p, dz) == MaxOf({Step(k, j) : j \in Below(k, p, dz)})
Bases(k, p, dz) == {j \in Below(k, p, dz) : 4 * Step(k, j) > Steepest(k, p, dz)}
(* top: uppermost gate within 150 m above the peak after a fall of more than a quarter of the steepest one *)
Above(k, p, dz) == p..(IF p + Gates(150, dz) - 1 > Len(k) - 1 THEN Len(k) - 1 ELSE p + Gates(150, dz) - 1)
Sharpest(k, p, dz) == MinOf({Step(k, j) : j \in Above(k, p, dz)})
Tops(k, p, dz) == {j + 1 : j \in {x \in Above(k, p, dz) : 4 * Step(k, x) < Sharpest(k, p, dz)}}
Found(k, p, dz) == Steepest(k, p, dz) > 0 /\ Sharpest(k, p, dz) < 0
Base(k, p, dz) == MinOf(Bases(k, p, dz))
Top(k, p, dz) == MaxOf(Tops(k, p, dz))
(* fall above the peak faster than 1e-7 per metre; slack: +1 surely, -1 possibly *)
Falls(k, p, t, dz, slack) == 20 * (k[p] - k[t]) > (2147 + slack * 3) * (t - p) * dz
ProperPeak(k, p, dz, slack) ==
    /\ Found(k, p, dz)
    /\ LET b == Base(k, p, dz)
           t == Top(k, p, dz)
       IN /\ Cardinality({i \in b..t : k[i] # 0}) >= 3
          /\ (t - b) * dz < 300
          /\ (p - 1) * dz > 100
          /\ Falls(k, p, t, dz, slack)
Layers(k, dz, slack) == UNION {IF ProperPeak(k, p, dz, slack) THEN Base(k, p, dz)..Top(k, p, dz) ELSE {} : p \in Peaks(k)}
(* A layer is extended by a radar echo that goes on from its top and ends    *)
(* within 500 m of the first freezing gate there.                            *)
TopGates(S, n) == {i \in S : i = n \/ i + 1 \notin S}
Reach(frz, t, dz) ==
    LET n == Len(frz)
        cold == {i \in t..n : frz[i]}
    IN IF cold = {} THEN n ELSE IF MinOf(cold) + Gates(500, dz) > n THEN n ELSE MinOf(cold) + Gates(500, dz)
Extension(echo, frz, t, dz) ==
    LET r == Reach(frz, t, dz)
        gap == {i \in t..r : ~echo[i]}
    IN IF gap = {} THEN {} ELSE t..(MinOf(gap) - 1)
Corrected(S, echo, frz, dz) == S \cup UNION {Extension(echo, frz, t, dz) : t \in TopGates(S, Len(echo))}
=============================================================================
