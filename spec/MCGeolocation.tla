---------------------------- MODULE MCGeolocation ----------------------------
EXTENDS Integers, Sequences, TLC, Json
VARIABLES pc, sc, lat, lon, alt, latsrc, lonsrc, altsrc, scalar
F == -999999999
PosKinds == {"none", "masked", "zero", "fixed", "moving", "gap"}
PLat(k) == IF k = "none" THEN <<>> ELSE IF k = "masked" THEN <<F, F, F>> ELSE IF k = "zero" THEN <<0, 0, 0>>
           ELSE IF k = "fixed" THEN <<-1200010, -1200000, -1199990>> ELSE IF k = "gap" THEN <<0, -1200000, F>> ELSE <<-1200000, -1100000, -1000000>>
PLon(k) == IF k = "none" THEN <<>> ELSE IF k = "masked" THEN <<F, F, F>> ELSE IF k = "zero" THEN <<0, 0, 0>>
           ELSE IF k = "fixed" THEN <<35800010, 35800000, 35799990>> ELSE IF k = "gap" THEN <<0, 35800000, F>> ELSE <<35800000, 35850000, 35900000>>
SiteKinds == {"none", "all", "position", "altitude"}
AttrKinds == {"none", "value"}
AltKinds == {"none", "one", "near", "jump"}
Make(g, v, d, s, a, h) ==
   [gps |-> g, var |-> v, data |-> d, site |-> s, attr |-> a, height |-> h,
    varlat |-> PLat(v), varlon |-> PLon(v), datalat |-> PLat(d), datalon |-> PLon(d),
    sitelat |-> IF s \in {"all", "position"} THEN <<5012345>> ELSE <<>>,
    sitelon |-> IF s \in {"all", "position"} THEN <<-1054321>> ELSE <<>>,
    sitealt |-> IF s \in {"all", "altitude"} THEN <<104>> ELSE <<>>,
    attrlat |-> IF a = "value" THEN <<-3412340>> ELSE <<>>,
    attrlon |-> IF a = "value" THEN <<-5840120>> ELSE <<>>,
    attralt |-> IF a = "value" THEN <<921>> ELSE <<>>,
    varalt |-> IF h = "none" THEN <<>> ELSE IF h = "one" THEN <<85>> ELSE IF h = "near" THEN <<85, 90, 95>> ELSE <<85, 300, 85>>]
Cases == {Make(g, v, d, s, a, h) : g \in BOOLEAN, v \in PosKinds, d \in {"none", "moving", "zero"}, s \in SiteKinds, a \in AttrKinds, h \in AltKinds}
M == INSTANCE Geolocation WITH Scenarios <- Cases
Spec == M!Spec
Terminates == M!Terminates
GpsFirst == M!GpsFirst
AltNotGps == M!AltNotGps
SiteBeatsFile == M!SiteBeatsFile
NothingLost == M!NothingLost
WrappedRange == M!WrappedRange
SignKept == M!SignKept
OneNumber == M!OneNumber
NotOutside == M!NotOutside
Emit == pc # "done" \/ PrintT("CASE " \o ToJson([sc |-> sc, latsrc |-> latsrc, altsrc |-> altsrc]))
=============================================================================
