----------------------------- MODULE InterpTrace -----------------------------
(* Judges calls of the interpolation functions and of the methods that put   *)
(* lidar, microwave radiometer and disdrometer data onto the grid.           *)
EXTENDS TraceBase
N == INSTANCE Interp WITH Ticks <- {}, Values <- {}, MaxSamples <- 0, MaxGap <- 0, taken <- <<>>

(* ---- a series: samples, targets, limit, exact, method, out (x 1000) ------ *)
Series(e) ==
    IF e.status # "ok" THEN {"FAILED"} ELSE
    IF Len(e.out) # Len(e.targets) THEN {"LENGTH"} ELSE
    LET s == e.series
        T == N!Stamps(s)
        far(t) == T = {} \/ N!NearestDist(T, t) > e.limit
        tie(t) == ~e.exact /\ T # {} /\ N!NearestDist(T, t) = e.limit
    IN C("GAP_IS_MASKED", \A i \in 1..Len(e.targets) : far(e.targets[i]) => e.out[i] = FILL)
       \cup C("VALUE_PRESENT", \A i \in 1..Len(e.targets) :
                 (~far(e.targets[i]) /\ ~tie(e.targets[i])) => e.out[i] # FILL)
       \cup C("VALUE", \A i \in 1..Len(e.targets) :
                 (~far(e.targets[i]) /\ e.out[i] # FILL) =>
                    IF e.method = "nearest" THEN N!NearestOk(s, e.targets[i], e.out[i], 1000, 2)
                    ELSE N!LinearOk(s, e.targets[i], e.out[i], 1000, e.tol))

(* ---- lidar: x, y, z, gx, gy, xlim, ylim, out, gaps ----------------------- *)
Lidar(e) ==
    IF e.status # "ok" THEN {"FAILED"} ELSE
    IF Len(e.out) # Len(e.gx) \/ \E i \in 1..Len(e.out) : Len(e.out[i]) # Len(e.gy) THEN {"SHAPE"} ELSE
    LET Used == {i \in 1..Len(e.x) : \E j \in 1..Len(e.y) : e.z[i][j] # FILL}
        X == {e.x[i] : i \in Used}
        Y == {e.y[j] : j \in 1..Len(e.y)}
        farx(t) == N!Gap(X, t, e.xlim)
        bad(i, j) == farx(e.gx[i]) \/ N!Gap(Y, e.gy[j], e.ylim) \/ N!Outside(X, e.gx[i]) \/ N!Outside(Y, e.gy[j])
        right(i, j) == \E a \in Used, b \in 1..Len(e.y) :
            e.x[a] \in N!Nearest(X, e.gx[i]) /\ e.y[b] \in N!Nearest(Y, e.gy[j]) /\ e.out[i][j] = e.z[a][b]
    IN C("GAP_IS_MASKED", \A i \in 1..Len(e.gx), j \in 1..Len(e.gy) : bad(i, j) => e.out[i][j] = FILL)
       \cup C("VALUE_OF_NEAREST", \A i \in 1..Len(e.gx), j \in 1..Len(e.gy) : bad(i, j) \/ right(i, j))
       \cup C("GAPS_REPORTED", {e.gaps[i] : i \in 1..Len(e.gaps)} = {i - 1 : i \in {i \in 1..Len(e.gx) : farx(e.gx[i])}})

(* ---- two-dimensional linear interpolation that keeps the mask ------------- *)
(* x, y, z, gx, gy, extrap, affine (or <<>>), out (x 1000)                   *)
Cells(g, t) == {i \in 1..(Len(g) - 1) : g[i] <= t /\ t <= g[i + 1]}
Mask2d(e) ==
    IF e.status # "ok" THEN {"FAILED"} ELSE
    IF Len(e.out) # Len(e.gx) \/ \E i \in 1..Len(e.out) : Len(e.out[i]) # Len(e.gy) THEN {"SHAPE"} ELSE
    LET nx == Len(e.x)
        ny == Len(e.y)
        clamp(g, t) == IF t < g[1] THEN g[1] ELSE IF t > g[Len(g)] THEN g[Len(g)] ELSE t
        m(a, b) == IF e.z[a][b] = FILL THEN 1 ELSE 0
        valid == UNION {{e.z[a][b] : b \in 1..ny} : a \in 1..nx} \ {FILL}
        lo == N!MinOf(valid)
        hi == N!MaxOf(valid)
        inx(t) == e.x[1] <= t /\ t <= e.x[nx]
        iny(t) == e.y[1] <= t /\ t <= e.y[ny]
        (* weight of the masked corners: num of den *)
        num(a, b, t, u) == m(a, b) * (e.x[a + 1] - t) * (e.y[b + 1] - u) + m(a + 1, b) * (t - e.x[a]) * (e.y[b + 1] - u)
                           + m(a, b + 1) * (e.x[a + 1] - t) * (u - e.y[b]) + m(a + 1, b + 1) * (t - e.x[a]) * (u - e.y[b])
        den(a, b) == (e.x[a + 1] - e.x[a]) * (e.y[b + 1] - e.y[b])
        corners(a, b) == {e.z[a][b], e.z[a + 1][b], e.z[a][b + 1], e.z[a + 1][b + 1]}
        aff(t, u) == e.affine[1] + e.affine[2] * t + e.affine[3] * u
        J(i, j) ==
            LET t == e.gx[i]
                u == e.gy[j]
                o == e.out[i][j]
            IN IF ~inx(t) \/ (~iny(u) /\ ~e.extrap) THEN C("OUTSIDE_IS_MASKED", o = FILL)
               ELSE LET uc == clamp(e.y, u)
                        a == CHOOSE a \in Cells(e.x, t) : TRUE
                        b == CHOOSE b \in Cells(e.y, uc) : TRUE
                        n == num(a, b, t, uc)
                        d == den(a, b)
                        whole == FILL \notin corners(a, b)
                    IN C("MOSTLY_MASKED_IS_MASKED", 2 * n > d => o = FILL)
                       \cup (IF iny(u)
                             THEN C("SUPPORTED_IS_PRESENT", whole => o # FILL)
                                  \cup C("WITHIN_MEASUREMENTS", o = FILL \/ e.extrap \/ (1000 * lo - 2 <= o /\ o <= 1000 * hi + 2))
                                  \cup C("WITHIN_CELL", ~whole \/ o = FILL \/ (1000 * N!MinOf(corners(a, b)) - 2 <= o /\ o <= 1000 * N!MaxOf(corners(a, b)) + 2))
                                  \cup C("COINCIDING", \A p \in 1..nx, q \in 1..ny : (e.x[p] = t /\ e.y[q] = u) =>
                                            IF e.z[p][q] = FILL THEN o = FILL ELSE o # FILL /\ Near(o, 1000 * e.z[p][q], 2))
                             ELSE {})
                       \cup (IF e.affine = <<>> \/ o = FILL THEN {}
                             ELSE C("LINEAR_FIELD", Near(o, 1000 * aff(t, u), e.tol)))
    IN UNION {J(i, j) : i \in 1..Len(e.gx), j \in 1..Len(e.gy)}

(* ---- nearest neighbour along the second axis ------------------------------ *)
Along(e) ==
    IF e.status # "ok" THEN {"FAILED"} ELSE
    IF Len(e.out) # Len(e.z) \/ \E i \in 1..Len(e.out) : Len(e.out[i]) # Len(e.gy) THEN {"SHAPE"} ELSE
    LET Y == {e.y[j] : j \in 1..Len(e.y)}
    IN C("OUTSIDE_IS_MASKED", \A i \in 1..Len(e.z), j \in 1..Len(e.gy) : N!Outside(Y, e.gy[j]) => e.out[i][j] = FILL)
       \cup C("VALUE_OF_NEAREST", \A i \in 1..Len(e.z), j \in 1..Len(e.gy) : N!Outside(Y, e.gy[j]) \/
              \E b \in 1..Len(e.y) : e.y[b] \in N!Nearest(Y, e.gy[j]) /\ e.out[i][j] = e.z[i][b])

Judge(e) == CASE e.kind = "series" -> Series(e)
              [] e.kind = "lidar" -> Lidar(e)
              [] e.kind = "mask2d" -> Mask2d(e)
              [] e.kind = "along" -> Along(e)
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
