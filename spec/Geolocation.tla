----------------------------- MODULE Geolocation -----------------------------
EXTENDS GeoRules
(* The procedure, step by step: one key after another, then the range of the  *)
(* longitude, then single numbers for stationary sites.                       *)
CONSTANTS Scenarios                      \* records of sources
VARIABLES pc, sc, lat, lon, alt, latsrc, lonsrc, altsrc, scalar
vars == <<pc, sc, lat, lon, alt, latsrc, lonsrc, altsrc, scalar>>
Init == /\ pc = "lat" /\ sc \in Scenarios
        /\ lat = <<>> /\ lon = <<>> /\ alt = <<>>
        /\ latsrc = "none" /\ lonsrc = "none" /\ altsrc = "none" /\ scalar = FALSE
PosLat(s) == IF s.varlat # <<>> THEN s.varlat ELSE s.datalat   \* the raw file before what was read earlier
PosLon(s) == IF s.varlon # <<>> THEN s.varlon ELSE s.datalon
TakeLat == /\ pc = "lat" /\ pc' = "lon"
           /\ lat' = Chosen(sc.gps, PosLat(sc), sc.sitelat, sc.varlat, sc.attrlat)
           /\ latsrc' = Source(sc.gps, PosLat(sc), sc.sitelat, sc.varlat, sc.attrlat)
           /\ UNCHANGED <<sc, lon, alt, lonsrc, altsrc, scalar>>
TakeLon == /\ pc = "lon" /\ pc' = "alt"
           /\ lon' = Chosen(sc.gps, PosLon(sc), sc.sitelon, sc.varlon, sc.attrlon)
           /\ lonsrc' = Source(sc.gps, PosLon(sc), sc.sitelon, sc.varlon, sc.attrlon)
           /\ UNCHANGED <<sc, lat, alt, latsrc, altsrc, scalar>>
TakeAlt == /\ pc = "alt" /\ pc' = "wrap"
           /\ alt' = Chosen(FALSE, <<>>, sc.sitealt, sc.varalt, sc.attralt)
           /\ altsrc' = Source(FALSE, <<>>, sc.sitealt, sc.varalt, sc.attralt)
           /\ UNCHANGED <<sc, lat, lon, latsrc, lonsrc, scalar>>
DoWrap == /\ pc = "wrap" /\ pc' = "collapse"
          /\ lon' = Wrap(lon)
          /\ UNCHANGED <<sc, lat, alt, latsrc, lonsrc, altsrc, scalar>>
Collapse == /\ pc = "collapse" /\ pc' = "done"
            /\ scalar' = (lat # <<>> /\ lon # <<>> /\ Stationary(lat, lon))
            /\ lat' = IF lat # <<>> /\ lon # <<>> /\ Stationary(lat, lon) THEN <<Mean(lat)>> ELSE lat
            /\ lon' = IF lat # <<>> /\ lon # <<>> /\ Stationary(lat, lon) THEN <<Mean(lon)>> ELSE lon
            /\ alt' = IF alt # <<>> /\ Spread(alt) < 100 THEN <<Mean(alt)>> ELSE alt
            /\ UNCHANGED <<sc, latsrc, lonsrc, altsrc>>
Next == TakeLat \/ TakeLon \/ TakeAlt \/ DoWrap \/ Collapse \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminates == <>(pc = "done")
Done == pc = "done"
(* A platform that knows where it is, is believed; *)
GpsFirst == Done /\ sc.gps /\ HasGps(PosLat(sc)) => latsrc = "gps"
(* the altitude never comes from it; *)
AltNotGps == altsrc # "gps"
(* the user's word beats the file's; *)
SiteBeatsFile == Done => /\ (HasAny(sc.sitealt) => altsrc = "site")
                         /\ (HasAny(sc.sitelat) => latsrc \in {"gps", "site"})
(* a coordinate is unknown only if nothing states it. *)
NothingLost == Done /\ latsrc = "none" => /\ ~HasAny(sc.sitelat) /\ ~HasAny(sc.varlat) /\ ~HasAny(sc.attrlat)
WrappedRange == Done => \A i \in 1..Len(lon) : lon[i] = FILL \/ (lon[i] > -18000001 /\ lon[i] < 18000001)
SignKept == Done => \A i \in 1..Len(lat) : lat[i] # FILL => lat[i] \in {x : x \in Valid(sc.varlat) \cup Valid(sc.datalat) \cup Valid(sc.sitelat) \cup Valid(sc.attrlat)} \/ scalar
OneNumber == Done /\ scalar => Len(lat) = 1 /\ Len(lon) = 1 /\ lat[1] # FILL
NotOutside == Done /\ scalar /\ latsrc = "gps" => /\ lat[1] >= MinOf(Valid(Zeroed(PosLat(sc)))) /\ lat[1] <= MaxOf(Valid(Zeroed(PosLat(sc))))
=============================================================================
