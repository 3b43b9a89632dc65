------------------------------ MODULE GridRules ------------------------------
(* C19, C20: model evaluation.  What belongs to a box of the model grid, which *)
(* pixels of the observations count, and what of the model is kept.            *)
(* Times in ticks (1/64 h), heights in decimetres above mean sea level,        *)
(* winds in m/s (whole), resolution in metres.                                 *)
EXTENDS Integers, Sequences, FiniteSets
FILL == -999999
NAN == -888888
Missing(x) == x = FILL \/ x = NAN
Bit(bits, k) == ((bits \div (2^k)) % 2) = 1
(* ---- observations ---- *)
(* A pixel is cloud if it holds droplets, or falling hydrometeors that are     *)
(* frozen; never where there are aerosols or insects.                          *)
Cloudy(bits) == /\ Bit(bits, 0) \/ (Bit(bits, 1) /\ Bit(bits, 2))
                /\ ~Bit(bits, 4) /\ ~Bit(bits, 5)
CfOf(bits) == IF Cloudy(bits) THEN 1 ELSE 0
(* Reliable retrievals of ice water content. *)
IwcOf(iwc, status) == IF status \in {1, 3} THEN iwc ELSE FILL
(* ---- boxes ---- *)
(* Model times are regular.  Every interval is closed below, open above.       *)
InStep(mt, i, t) == LET d == mt[2] - mt[1] IN 2 * mt[i] - d <= 2 * t /\ 2 * t < 2 * mt[i] + d
(* Twice the edges of the levels of one profile: halfway between the levels;   *)
(* the outermost levels reach as far as the distance to their neighbour.       *)
Low2(h, k) == IF k = 1 THEN 2 * h[1] - 2 * (h[2] - h[1]) ELSE h[k - 1] + h[k]
Top2(h, k) == IF k = Len(h) THEN 2 * h[k] + 2 * (h[k] - h[k - 1]) ELSE h[k] + h[k + 1]
InLevel(h, k, z) == Low2(h, k) <= 2 * z /\ 2 * z < Top2(h, k)
(* Time of advection of the air over the box, at most one hour, around the     *)
(* time of the model.  A tick is 56.25 s:  2 |dt| 56.25 wind  against  res     *)
InAdv(mt, i, wind, res, t) ==
    LET d == t - mt[i]
        hour == -32 <= d /\ d < 32
        x == 225 * d * wind
    IN hour /\ (-2 * res <= x /\ x < 2 * res)
AdvKnown(wind) == wind > 0
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)
(* One profile of a box: values of its levels. *)
Column(row, Z) == LET ok == {z \in Z : ~Missing(row[z])} IN [n |-> Cardinality(ok), s |-> SumSeq([z \in 1..Len(row) |-> IF z \in ok THEN row[z] ELSE 0], 1)]
(* Totals of a box: number of values, their sum, profiles with any value,      *)
(* profiles with any cloud.                                                    *)
Totals(px, T, Z) ==
    LET c == [t \in T |-> Column(px[t], Z)]
        all(f) == SumSeq([t \in 1..Len(px) |-> IF t \in T THEN f[t] ELSE 0], 1)
    IN [n |-> all([t \in T |-> c[t].n]), s |-> all([t \in T |-> c[t].s]),
        cols |-> Cardinality({t \in T : c[t].n > 0}), cloudy |-> Cardinality({t \in T : c[t].s > 0})]
(* Model heights are above the ground: of the model if it says where that is,  *)
(* else of the site.                                                           *)
AboveSea(mh, sfc, site) == [i \in 1..Len(mh) |-> [k \in 1..Len(mh[i]) |-> mh[i][k] + (IF sfc = <<>> THEN site ELSE sfc[i])]]
(* ---- model ---- *)
LIMIT == 220000
Levels(mh) == Cardinality({k \in 1..Len(mh[1]) : \E i \in 1..Len(mh) : mh[i][k] < LIMIT})
=============================================================================
