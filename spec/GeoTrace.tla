------------------------------- MODULE GeoTrace -------------------------------
(* ev = "resolve": one call or one conversion.  gps and the sources as in      *)
(* GeoRules (1e-5 degrees; metres), lat, lon, alt: what the product has        *)
(* (<<>> absent), latdim etc: 0 single number, 1 along time, -1 otherwise      *)
(* n: number of profiles;  src: what the attributes say                        *)
(* ev = "height": range (m), zenith (deg), alt (dm), height (dm) of a product   *)
EXTENDS TraceBase
R == INSTANCE GeoRules
F == R!FILL
PLat(e) == IF e.varlat # <<>> THEN e.varlat ELSE e.datalat
PLon(e) == IF e.varlon # <<>> THEN e.varlon ELSE e.datalon
Repeat(x, n) == [i \in 1..n |-> x]
(* in a product a single number is repeated for every profile *)
One(e, x) == IF e.product THEN Repeat(x, e.n) ELSE <<x>>
Constant(s) == \A i \in 1..Len(s) : s[i] = s[1]
Same(got, want, tol) == Len(got) = Len(want) /\ \A i \in 1..Len(want) : IF want[i] = F THEN got[i] = F ELSE got[i] # F /\ Abs(got[i] - want[i]) <= tol
SrcName == [gps |-> "GPS", site |-> "site coordinates", file |-> "raw file", attr |-> "raw file", none |-> ""]
Judge(e) ==
    IF e.status # "ok" THEN {"WORKS"} ELSE
    IF e.ev = "height" THEN
        C("HEIGHT_LENGTH", Len(e.height) = Len(e.range))
        \cup C("HEIGHT", \A i \in 1..Len(e.range) : i <= Len(e.height) => Abs(e.height[i] - R!Height(e.range[i], e.zenith, 0) - e.alt) <= 3)
    ELSE
    LET wlat == R!Chosen(e.gps, PLat(e), e.sitelat, e.varlat, e.attrlat)
        wlon0 == R!Chosen(e.gps, PLon(e), e.sitelon, e.varlon, e.attrlon)
        walt == R!Chosen(FALSE, <<>>, e.sitealt, e.varalt, e.attralt)
        both == wlat # <<>> /\ wlon0 # <<>>
        wlon == IF both THEN R!Wrap(wlon0) ELSE wlon0
        still == both /\ R!Stationary(wlat, wlon)
        moves == both /\ R!Moving(wlat, wlon)
        flat == R!Spread(walt) < 90
    IN
     C("LAT_PRESENT", (wlat = <<>>) = (e.lat = <<>>)) \cup C("LON_PRESENT", (wlon = <<>>) = (e.lon = <<>>))
    \cup C("ALT_PRESENT", (walt = <<>>) = (e.alt = <<>>))
    \cup C("ONE_NUMBER", still => IF e.product THEN Constant(e.lat) /\ Constant(e.lon) ELSE e.latdim = 0 /\ e.londim = 0)
    \cup C("ALONG_TIME", moves => e.latdim = 1 /\ e.londim = 1)
    \cup C("LATITUDE", (still => Same(e.lat, One(e, R!Mean(wlat)), 3)) /\ (moves => Same(e.lat, wlat, 3)))
    \cup C("LONGITUDE", (still => Same(e.lon, One(e, R!Mean(wlon)), 4)) /\ (moves => Same(e.lon, wlon, 4)))
    \cup C("LONGITUDE_RANGE", both => \A i \in 1..Len(e.lon) : e.lon[i] = F \/ (e.lon[i] > -18000004 /\ e.lon[i] < 18000004))
    \cup C("ALTITUDE", (walt # <<>> /\ flat) => (IF e.product THEN Constant(e.alt) ELSE e.altdim = 0) /\ Same(e.alt, One(e, R!Mean(walt)), 1))
    \cup C("SOURCE", e.src = <<>> \/ /\ (wlat # <<>> => e.src[1] = SrcName[R!Source(e.gps, PLat(e), e.sitelat, e.varlat, e.attrlat)])
                                     /\ (wlon # <<>> => e.src[2] = SrcName[R!Source(e.gps, PLon(e), e.sitelon, e.varlon, e.attrlon)])
                                     /\ (walt # <<>> => e.src[3] = SrcName[R!Source(FALSE, <<>>, e.sitealt, e.varalt, e.attralt)]))
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
