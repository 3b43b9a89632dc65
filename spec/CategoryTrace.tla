----------------------------- MODULE CategoryTrace ----------------------------
(* Judges the category bits of one profile of a categorize product.          *)
(*  h, tw, z, b, bits, clut : per gate (m, mK, 0/1, 0/1, integer, 0/1)       *)
(*  peaks: gates with strong backscatter; dz gate spacing; alt site altitude *)
(*  lo, hi: temperature range of melting (mK relative to 0 degC)             *)
(*  melt: any melting in the whole product; mlo, mhi: heights it spans       *)
(*  ins: insects are likely; lwp: no or more than 5 g m-2 of liquid water     *)
(*  far: bits when measurements of a distant time are left out                *)
(*  steady: temperature constant in time                                     *)
EXTENDS TraceBase, Categories
N(e) == Len(e.bits)
Bit(x, k) == (x \div (2 ^ k)) % 2 = 1
Names == <<Droplet, Falling, Freezing, Melting, Aerosol, Insect>>
Bits(x) == {Names[k] : k \in {j \in 1..6 : Bit(x, j - 1)}}
Attr(e, i) == [z |-> e.z[i] = 1, b |-> e.b[i] = 1, tw |-> e.tw[i], agl |-> e.h[i] - e.alt]
B(e) == [i \in 1..N(e) |-> Bits(e.bits[i])]
All(e, P(_)) == \A i \in 1..N(e) : P(i)

(* gates where a cold lidar echo counts as ice: not near the ground, and below 4 km only where the echo is not deep *)
ColdLidar(e, bs, i) ==
    /\ e.b[i] = 1 /\ e.z[i] = 0 /\ Droplet \notin bs[i]
    /\ e.tw[i] < T0 - 15000 - Tol /\ e.h[i] - e.alt >= 2000
    /\ (e.h[i] - e.alt >= 4000 \/ Cardinality({j \in Max2(1, i - 5)..i : e.b[j] = 1}) <= 2)
DeepColdEcho(e, i) ==
    e.h[i] - e.alt < 4000 /\ Cardinality({j \in Max2(1, i - 5)..i : e.b[j] = 1}) > 2
Run(e, bs, i) == \* gate i lies in a run of more than 10 gates of lidar ice
    \E s \in Max2(1, i - 10)..i : s + 10 <= N(e) /\ \A j \in s..(s + 10) : ColdLidar(e, bs, j)

LowestFreezing(e, bs, above) ==
    LET S == {i \in 1..N(e) : Freezing \in bs[i] /\ e.h[i] >= above} IN IF S = {} THEN e.h[N(e)] ELSE Min2(e.h[N(e)], e.h[CHOOSE i \in S : \A j \in S : i <= j])
FromPeak(e, bs, k) ==
    \E p \in 1..Len(e.peaks) : LET j == e.peaks[p] IN
        /\ e.h[j] > e.h[1] + 100
        /\ e.h[k] >= e.h[j] - 200 - e.dz
        /\ \A i \in 1..k : e.h[i] > e.h[j] + 150 + e.dz => e.z[i] = 1
        /\ (e.h[k] <= e.h[j] + 150 + e.dz \/ e.h[k] <= Max2(LowestFreezing(e, bs, e.h[j]), e.h[j] + 150 + e.dz) + 500 + e.dz)

TwZero(e) == {i \in 1..N(e) : e.tw[i] < T0}
FirstCold(e) == CHOOSE i \in TwZero(e) : \A j \in TwZero(e) : i <= j
Judge(e) ==
    LET bs == B(e) IN
    C("ONE_VALUE_PER_PIXEL", Len(e.h) = N(e) /\ Len(e.tw) = N(e) /\ Len(e.z) = N(e) /\ Len(e.b) = N(e) /\ N(e) > 0)
    \cup C("KNOWN_BITS", All(e, LAMBDA i : e.bits[i] >= 0 /\ e.bits[i] < 64))
    \cup IF ~All(e, LAMBDA i : e.bits[i] >= 0 /\ e.bits[i] < 64) THEN {} ELSE
    C("EXCLUSIVE", All(e, LAMBDA i : Exclusive(bs[i])))
    \cup C("AEROSOL", All(e, LAMBDA i : AerosolRight(Attr(e, i), bs[i])))
    \cup C("SUPER_COLD", All(e, LAMBDA i : NoSuperCold(Attr(e, i), bs[i])))
    \cup C("INSECT", All(e, LAMBDA i : InsectRight(Attr(e, i), bs[i])))
    \cup C("FALLING", All(e, LAMBDA i : FallingRight(Attr(e, i), bs[i])))
    \cup C("LIDAR_ICE", All(e, LAMBDA i : (Falling \in bs[i] /\ e.z[i] = 0 /\ e.tw[i] > T0 - 38000 + Tol) => ~DeepColdEcho(e, i)))
    \cup C("LIDAR_ICE_FOUND", All(e, LAMBDA i : Run(e, bs, i) => Falling \in bs[i]))
    \cup C("ECHO_EXPLAINED", All(e, LAMBDA i : EchoExplained(Attr(e, i), bs[i], e.clut[i] = 1)))
    \cup C("NO_THICK_UNEXPLAINED_ECHO", ~\E s \in 1..(N(e) - 10) : \A i \in s..(s + 10) :
              e.z[i] = 1 /\ e.clut[i] = 0 /\ bs[i] \intersect {Falling, Insect, Droplet} = {})
    \cup C("NOTHING_FROM_NOTHING", All(e, LAMBDA i : SomethingSeen(Attr(e, i), bs[i])))
    \cup C("CLUTTER", All(e, LAMBDA i : ClutterRight(Attr(e, i), bs[i], e.clut[i] = 1)))
    \cup C("FREEZING_UPWARDS", \A i \in 1..(N(e) - 1) : Freezing \in bs[i] => Freezing \in bs[i + 1])
    \cup C("FREEZING_BY_TEMPERATURE",
           (e.steady /\ ~e.melt) => All(e, LAMBDA i : (e.tw[i] < T0 - Tol => Freezing \in bs[i]) /\ (e.tw[i] > T0 + 60 => Freezing \notin bs[i])))
    \cup C("FREEZING_BRACKETED",
           (e.steady /\ e.melt /\ TwZero(e) # {}) =>
              LET f == FirstCold(e)
                  up == Max2(e.h[f], e.mhi)
                  dn == Min2(IF f = 1 THEN e.h[1] ELSE e.h[f - 1], e.mlo)
              IN All(e, LAMBDA i : (e.h[i] > up => Freezing \in bs[i]) /\ (e.h[i] < dn - 1 => Freezing \notin bs[i])))
    \cup C("MELTING", All(e, LAMBDA i : Melting \in bs[i] =>
              \/ e.tw[i] > T0 + e.lo - 300 /\ e.tw[i] < T0 + e.hi + 300
              \/ i > 1 /\ Freezing \in bs[i] /\ Freezing \notin bs[i - 1]))
    \cup C("NO_INSECTS_ABOVE_MELTING", All(e, LAMBDA i : {Insect, Freezing} \subseteq bs[i] => \A j \in 1..i : Melting \notin bs[j]))
    \cup C("MELTING_BETWEEN_ICE_AND_DRIZZLE", All(e, LAMBDA i :
              (i > 11 /\ e.lwp /\ e.ins[i] = 0 /\ e.ins[i - 1] = 0 /\ {Falling, Freezing} \intersect bs[i - 1] = {Falling} /\ Droplet \notin bs[i - 1]
               /\ Freezing \in bs[i] /\ (Falling \in bs[i] \/ Droplet \in bs[i])) => Melting \in bs[i]))
    \cup C("DROPLETS_FROM_PEAK", All(e, LAMBDA k : Droplet \in bs[k] => FromPeak(e, bs, k)))
    (* the bits do not depend on what was measured at quite another time *)
    \cup C("UNAFFECTED_BY_FAR_AWAY",
           (e.far # <<>> /\ Len(e.far) = N(e) /\ All(e, LAMBDA i : (Freezing \in Bits(e.far[i])) = (Freezing \in bs[i]))) => e.far = e.bits)
    \cup C("SAME_AGAIN", e.again = <<>> \/ e.again = e.bits)
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
