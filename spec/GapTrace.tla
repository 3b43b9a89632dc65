-------------------------------- MODULE GapTrace -------------------------------
(* ev = "window": bins a..b of one run of the categorize generator; seconds. *)
(*  radar: <<time, code>> of raw profiles in the window                      *)
(*  lidar: <<time, code>> of profiles with data, up to two minutes around    *)
(*  model: <<time, 1 if it has temperatures>> of the model profiles          *)
(*  mwr, dis: times of values, in and around the window; before and after:   *)
(*  extent of the whole series                                               *)
(*  bins: kept bins;  z, v, width, beta, lwp, rate, lat, tw: the value of    *)
(*  each kept step, decoded to the number of the bin it was measured in      *)
(*  (FILL missing);  whole: nothing outside the window                       *)
(*  dims: <<name, 1 if the variable has its documented dimensions>>          *)
(* ev = "close": left: input files not closed afterwards                     *)
EXTENDS TraceBase
Mid(i) == 30 * i + 15
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
HasRadar(e, i) == \E k \in 1..Len(e.radar) : e.radar[k][1] \div 30 = i
RadarCode(e, i) == e.radar[CHOOSE k \in 1..Len(e.radar) : e.radar[k][1] \div 30 = i][2]
LidarDist(e, i) == {Abs(e.lidar[k][1] - Mid(i)) : k \in 1..Len(e.lidar)}
HasLidar(e, i, reach) == \E d \in LidarDist(e, i) : d <= reach      \* exactly a minute: either way
LidarCodes(e, i) == {e.lidar[k][2] : k \in {x \in 1..Len(e.lidar) : Abs(e.lidar[x][1] - Mid(i)) = MinOf(LidarDist(e, i))}}
HasModel(e, i) ==
    LET n == Len(e.model)
        m == Mid(i)
    IN \E k \in 1..(n - 1) : /\ e.model[k][1] <= m /\ m <= e.model[k + 1][1]
                             /\ IF m - e.model[k][1] <= e.model[k + 1][1] - m THEN e.model[k][2] = 1 ELSE e.model[k + 1][2] = 1
                             \* between two profiles with data on either side
                             /\ \E j \in 1..n : e.model[j][1] <= m /\ e.model[j][2] = 1
                             /\ \E j \in 1..n : e.model[j][1] >= m /\ e.model[j][2] = 1
Covered(e, i, reach) == HasRadar(e, i) /\ HasLidar(e, i, reach) /\ HasModel(e, i)
Expected(e) == {i \in e.a..e.b : Covered(e, i, 59)}
Possible(e) == {i \in e.a..e.b : Covered(e, i, 60)}
Got(e) == {e.bins[k] : k \in 1..Len(e.bins)}
(* optional series: linear in between, missing when too far from a value *)
SeriesOK(e, s, extent, val, reach) ==
    \A k \in 1..Len(e.bins) :
        LET m == Mid(e.bins[k])
            near == {Abs(s[j] - m) : j \in 1..Len(s)}
            d == IF near = {} THEN 100000 ELSE MinOf(near)
            ok == ((extent[1] <= m /\ m <= extent[2]) => Near(val[k], e.bins[k], 1))
        IN IF d > reach THEN val[k] = FILL
           ELSE IF d = reach THEN val[k] = FILL \/ ok      \* exactly at the limit: either way
           ELSE val[k] # FILL /\ ok
Steps(e, P(_)) == \A k \in 1..Len(e.bins) : P(k)
Judge(e) ==
    IF e.ev = "close" THEN
        C("CLOSED", e.left = <<>>) \cup C("FAILS", e.fails => e.status # "ok") \cup C("WORKS", ~e.fails => e.status = "ok")
    ELSE
    LET exp == Expected(e) IN
    C("PROCESSED", Cardinality(exp) >= 2 => e.status = "ok")
    \cup C("TOO_FEW", (e.whole /\ Cardinality(Possible(e)) < 2) => e.status = "ValidTimeStampError")
    \cup IF e.status # "ok" THEN {} ELSE
    C("ONCE_IN_ORDER", \A k \in 1..(Len(e.bins) - 1) : e.bins[k] < e.bins[k + 1])
    \cup C("ON_THE_GRID", e.ongrid)
    \cup C("NO_STEP_LOST", exp \subseteq Got(e))
    \cup C("NO_UNCOVERED_STEP", Got(e) \subseteq Possible(e))
    \cup C("DIMENSIONS", \A k \in 1..Len(e.dims) : e.dims[k][2] = 1)
    \cup C("RADAR_ALIGNED", Steps(e, LAMBDA k : HasRadar(e, e.bins[k]) =>
              LET want == RadarCode(e, e.bins[k]) IN Near(e.v[k], want, 1) /\ Near(e.width[k], want, 1) /\ Near(e.z[k], want, 1)))
    \cup C("LOCATION_ALIGNED", e.lat = <<>> \/ Steps(e, LAMBDA k : HasRadar(e, e.bins[k]) => Near(e.lat[k], RadarCode(e, e.bins[k]), 1) /\ Near(e.lon[k], RadarCode(e, e.bins[k]), 1)))
    \cup C("LIDAR_ALIGNED", Steps(e, LAMBDA k : HasLidar(e, e.bins[k], 60) => (e.beta[k] = FILL \/ \E x \in LidarCodes(e, e.bins[k]) : e.beta[k] = x)))
    \cup C("LIDAR_PRESENT", Steps(e, LAMBDA k : (\E x, y \in 1..Len(e.lidar) : e.lidar[x][1] < Mid(e.bins[k]) /\ e.lidar[y][1] > Mid(e.bins[k])) => e.beta[k] # FILL))
    \cup C("MODEL_ALIGNED", Steps(e, LAMBDA k : Near(e.tw[k], e.bins[k], 2)))
    \cup C("MWR_ALIGNED", IF e.mext = <<>> THEN e.lwp = <<>> ELSE SeriesOK(e, e.mwr, e.mext, e.lwp, 120))
    \cup C("DISDROMETER_ALIGNED", IF e.dext = <<>> THEN e.rate = <<>> ELSE SeriesOK(e, e.dis, e.dext, e.rate, 60))
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
