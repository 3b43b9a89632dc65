------------------------------ MODULE LiquidTrace -----------------------------
(* Judges one profile of the liquid water content product.                   *)
(*  liquid, echo (0 none, 1 lidar, 2 radar, 3 both), path (m) of each gate   *)
(*  grad: adiabatic gradient (10^-8 kg m-4) if the gate were a base          *)
(*  uniform: all gates equally thick; rain; lwp (g m-2, FILL when missing)   *)
(*  lwc (10^-7 kg m-3, FILL missing), pos: content above zero; status;       *)
(*  err: error present, ev: relative error x 1000; perr: error of lwp (g m-2)*)
(*  around: contents of the previous and next profile (itself at an edge)    *)
EXTENDS TraceBase
L == INSTANCE Liquid WITH NGates <- 0, Paths <- {}, liquid <- <<>>, echo <- <<>>, lwp <- 0, added <- 0, phase <- ""

Full(x) == IF x = FILL THEN 0 ELSE x
Sq(x) == x * x
(* half the relative change over a gate or a profile, x 1000                 *)
Change(d, x) == Min2((Abs(d) * 500) \div x, 20000)
(* squared relative error: of the content by its gradient, of the path       *)
ErrorSq(e, i, edge) ==
    LET n == Len(e.lwc)
        x == e.lwc[i]
        dt == (e.around[2][i] - e.around[1][i]) \div (IF edge THEN 1 ELSE 2)
        dz == IF i = 1 THEN Full(e.lwc[2]) - x ELSE IF i = n THEN x - Full(e.lwc[n - 1])
              ELSE (Full(e.lwc[i + 1]) - Full(e.lwc[i - 1])) \div 2
    IN Min2(Sq(Change(dt, x)) + Sq(Change(dz, x)), 25000000) + Sq(Min2((1000 * e.perr) \div Max2(e.lwp, 1), 10000))
Judge(e) ==
    LET n == Len(e.liquid)
        liq == [i \in 1..n |-> e.liquid[i] = 1]
        void == e.rain \/ e.lwp = FILL
        lwp == Max2(e.lwp, 0)
        target == lwp * 100000                     \* in 10^-8 kg m-2
        sum(k) == L!AdiabaticPath(liq, e.path, e.grad, k)
        slack == lwp * 1000 + 20000                \* one per cent
        top == L!LastTop(liq)
        three == {i \in 1..n : e.status[i] = 3}
        k == Cardinality(three)
        adjusted == \E i \in 1..n : e.status[i] \in {2, 3}
        content == {i \in 1..n : e.pos[i]}
        ref == CHOOSE i \in 1..n : \A j \in 1..n : e.lwc[j] <= e.lwc[i]
        ext(i) == L!Extended(liq, e.path, e.grad, k, i)
        total == L!SumTo([i \in 1..n |-> IF e.lwc[i] = FILL THEN 0 ELSE e.lwc[i] * e.path[i]], n)
        depth == L!SumTo(e.path, n)
    IN C("ONE_VALUE_PER_PIXEL", Len(e.lwc) = n /\ Len(e.status) = n /\ Len(e.err) = n)
       \cup IF ~(Len(e.lwc) = n /\ Len(e.status) = n /\ Len(e.err) = n) THEN {}
       ELSE IF void THEN
            C("NO_CONTENT_WITHOUT_PATH_OR_IN_RAIN", content = {})
            \cup C("UNRETRIEVABLE_STATUS", \A i \in 1..n : e.status[i] \in {4, 5, 6})
            \cup C("NO_ERROR_WITHOUT_CONTENT", \A i \in 1..n : ~e.err[i])
       ELSE
            C("FINITE_AND_NOT_NEGATIVE", \A i \in 1..n : e.lwc[i] = FILL \/ e.lwc[i] >= 0)
            \cup C("CONTENT_ONLY_IN_LIQUID", \A i \in content : liq[i] \/ i \in three)
            \cup C("CONTENT_IN_ALL_LIQUID", lwp > 0 => \A i \in 1..n : (liq[i] \/ i \in three) => i \in content)
            \cup C("ADDS_UP_TO_MEASURED_PATH", L!HasLiquid(liq) => Near(total, lwp * 10000, depth \div 2 + 2 + lwp \div 2))
            \cup C("STATUS_OF_PIXELS", \A i \in 1..n :
                    IF liq[i] THEN e.status[i] = (IF adjusted THEN 2 ELSE 1) ELSE e.status[i] \in {0, 3})
            \cup C("ERROR_WHERE_CONTENT", \A i \in 1..n : e.err[i] <=> i \in content)
            \cup C("ERROR_VALUE", \A i \in content : (e.lwc[i] > 1000 /\ e.lwp > 0) =>
                    LET want == ErrorSq(e, i, e.edge)
                    IN Near(Sq(e.ev[i]), want, want \div 40 + 6 * e.ev[i] + 20))
            \cup C("ADJUSTED_WHEN_LIDAR_ONLY_AND_SHORT",
                    /\ adjusted => (L!LidarOnly(liq, e.echo) /\ sum(0) < target + slack)
                    /\ (L!LidarOnly(liq, e.echo) /\ sum(0) < target - slack) => adjusted)
            \cup C("ADDED_ON_TOP_ONLY", three = {} \/ (L!HasLiquid(liq) /\ three = (top + 1)..(top + k)))
            \cup C("ADDED_AS_NEEDED", (adjusted /\ e.uniform) =>
                    /\ k > 0 => sum(k - 1) <= target + slack
                    /\ (sum(k) >= target - slack \/ top + k = n))
            \cup C("PROPORTIONAL_TO_ADIABATIC", (L!HasLiquid(liq) /\ e.lwc[ref] > 2000 /\ (e.uniform \/ ~adjusted)) =>
                    \A i \in content : Near((e.lwc[i] * 1000) \div e.lwc[ref], (ext(i) * 1000) \div ext(ref), 12))
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
