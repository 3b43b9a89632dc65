----------------------------- MODULE CleanupTrace ------------------------------
(* Judges what is left of the radar data of one scene.                        *)
(*  z, v, width, ldr, sigma: measured (1 where there is a value) as rows of   *)
(*  profiles;  oz, ov, ...: in the product (empty list: variable not there)   *)
(*  fast: 1 where the velocity of the first gate is above 4 m/s               *)
(*  noisy: radar whose speckle is removed;  same: 1 where what is left of     *)
(*  variables equals what was measured                                        *)
(*  sens: sensitivity minus 20 lg range minus mean gas attenuation, mdBZ      *)
(*  clut: per gate [n, below, above]: number of cluttered pixels, how many    *)
(*  of them are clearly below (above) the sensitivity                         *)
(*  weak: number of pixels with less power than the smallest power, and with  *)
(*  at most that power plus a bit; npix: number of pixels                     *)
EXTENDS TraceBase
K == INSTANCE Cleanup WITH Margin <- 5, MinProfiles <- 300, MinValues <- 20
Judge(e) ==
    IF e.status # "ok" THEN {"PROCESSED"} ELSE
    LET sp(x) == IF x = <<>> \/ ~e.noisy THEN x ELSE K!Speckle(x)
        has(x) == x # <<>>
        z == sp(e.z)
        v0 == sp(e.v)
        v1 == IF e.noisy THEN K!FirstGate(v0, e.fast) ELSE v0
        sg == sp(e.sigma)
        ld == sp(e.ldr)
        w == sp(e.width)
        v2 == K!Velocity(v1, z, v1)
        v3 == IF has(sg) THEN K!Velocity(v2, z, sg) ELSE v2
        sg2 == IF has(sg) THEN K!Own(sg) ELSE sg
        v4 == IF has(ld) THEN K!Velocity(v3, z, ld) ELSE v3
        ld2 == IF has(ld) THEN K!Own(ld) ELSE ld
        req == {z, v4} \cup (IF has(w) THEN {w} ELSE {})
        left(x) == IF has(x) THEN K!Complete(x, req) ELSE x
        sub(a, b) == has(a) => \A t \in 1..Len(a) : \A g \in 1..Len(a[t]) : a[t][g] <= b[t][g]
    IN C("SHAPES", \A p \in {<<e.oz, e.z>>, <<e.ov, e.v>>, <<e.owidth, e.width>>, <<e.oldr, e.ldr>>, <<e.osigma, e.sigma>>} :
                       Len(p[1]) = Len(p[2]) /\ \A t \in 1..Len(p[1]) : Len(p[1][t]) = Len(p[2][t]))
       \cup C("ONLY_REMOVED", sub(e.oz, e.z) /\ sub(e.ov, e.v) /\ sub(e.owidth, e.width) /\ sub(e.oldr, e.ldr) /\ sub(e.osigma, e.sigma))
       \cup C("UNCHANGED", e.same)
       \cup C("COMPLETE", e.oz = e.ov /\ (has(e.width) => e.oz = e.owidth))
       \cup C("ECHO", e.oz = left(z))
       \cup C("VELOCITY", e.ov = left(v4))
       \cup C("WIDTH", e.owidth = left(w))
       \cup C("LDR", e.oldr = left(ld2))
       \cup C("SIGMA", e.osigma = left(sg2))
       \cup C("SENSITIVITY_OF_POWER", \A i, j \in 1..Len(e.sens) : (e.clut[i][1] = 0 /\ e.clut[j][1] = 0) => Near(e.sens[i], e.sens[j], 10))
       \cup C("SENSITIVITY_OF_CLUTTER", \A i \in 1..Len(e.sens) : e.clut[i][1] > 0 => (2 * e.clut[i][2] <= e.clut[i][1] /\ 2 * e.clut[i][3] <= e.clut[i][1]))
       \cup C("SMALLEST_POWER", e.npix > 0 => ((e.weak[1] - 1) * 1000 <= e.npix - 1 /\ (e.weak[2] + 1) * 1000 >= e.npix - 1))
       \cup C("NO_ECHO_AT_ALL", (e.npix = 0 /\ Len(e.sens) > 0) => \A i \in 1..Len(e.sens) : Near(e.sens[i], 0, 10))
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
