------------------------------ MODULE EvalTrace ------------------------------
(* C20.  ev = "model": what of the model is in the L3 file.                    *)
(*   mh (dm), val (cf: 1e-4) or q (1e-9; several components), k/m: density     *)
(*   gk/gm kg m-3 of the air;  outh (dm), out (cf: 1e-4; else 1e-10 kg m-3),   *)
(*   levin, levout: level numbers, fcin, fcout: forecast times, hin, hout: time*)
(* ev = "fault": an input that can not be used: status, class expected, and    *)
(*   the file before and after                                                 *)
(* ev = "run": one run of a sequence; before, after: the product in the file   *)
EXTENDS TraceBase
R == INSTANCE GridRules
F == R!FILL
Close1(a, b, tol) == IF b = F THEN a = F ELSE a # F /\ Abs(a - b) <= tol
Cut(row, n) == SubSeq(row, 1, n)
(* cloud fraction: values below 0.05 are dropped *)
CfOk(o, v) == IF v = F \/ v < 500 THEN o = F ELSE IF v = 500 THEN o \in {F, 499, 500} ELSE o # F /\ Abs(o - v) <= 1
(* water content: sum of mixing ratios times density;  x gm = 10 q gk *)
RECURSIVE SumQ(_, _, _, _)
SumQ(qs, c, i, k) == IF c > Len(qs) THEN 0 ELSE qs[c][i][k] + SumQ(qs, c + 1, i, k)
LostQ(qs, i, k) == \E c \in 1..Len(qs) : qs[c][i][k] = F
Limit(product) == IF product = "iwc" THEN 1000 ELSE 100000     \* 1e-7, 1e-5 kg m-3
WcOk(product, o, q, gk, gm) ==
    LET want == 10 * q * gk
        lim == Limit(product) * gm
        tie == (want \div 200000) + 1
    IN IF want < lim - tie THEN o = F
       ELSE (o = F /\ want <= lim + tie) \/ (o # F /\ Abs(o * gm - want) <= gm * (2 + (Abs(o) \div 400000)))
Model(e) ==
    LET n == R!Levels(e.mh)
        T == 1..Len(e.mh)
        all(P(_, _)) == \A i \in T : \A k \in 1..n : P(i, k)
        shape(o) == Len(o) = Len(e.mh) /\ \A i \in T : Len(o[i]) = n
    IN IF ~shape(e.outh) \/ ~shape(e.out) THEN {"LEVELS"}
       ELSE C("HEIGHT", all(LAMBDA i, k : Close1(e.outh[i][k], e.mh[i][k], 1)))
            \cup C("LEVEL_NUMBERS", e.levout = Cut(e.levin, n))
            \cup C("TIMES", e.hout = e.hin /\ e.fcout = e.fcin)
            \cup C("VALUES", all(LAMBDA i, k :
                    IF e.product = "cf" THEN CfOk(e.out[i][k], e.q[1][i][k])
                    ELSE IF LostQ(e.q, i, k) \/ e.gk[i][k] = F THEN e.out[i][k] = F
                    ELSE WcOk(e.product, e.out[i][k], SumQ(e.q, 1, i, k), e.gk[i][k], e.gm[i][k])))
Run(e) ==
    LET exists == e.before > 0
        want == IF exists /\ ~e.overwrite THEN "FileExistsError" ELSE IF e.fault # "none" THEN "error" ELSE "ok"
    IN C("RESULT", CASE want = "ok" -> e.status = "ok" [] want = "FileExistsError" -> e.status = "FileExistsError" [] OTHER -> e.status \notin {"ok", "FileExistsError", "TIMEOUT"})
       \cup C("FILE", IF want = "ok" THEN e.after = e.me /\ e.returned = e.me ELSE e.after = e.before)
       \cup C("CONTENT", want = "ok" \/ e.same)
Judge(e) ==
    CASE e.ev = "model" -> (IF e.status # "ok" THEN {"WORKS"} ELSE Model(e))
      [] e.ev = "fault" -> C("ERROR", e.status = e.want) \cup C("NO_FILE", e.after = 0)
      [] e.ev = "run" -> Run(e)
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
