------------------------------ MODULE GridTrace ------------------------------
(* One L3 file.  product;  mt, mh (above ground; levels below the limit),      *)
(* sfc, site, wind, res: the model;  ot, oh, px (bits, or 1e-6 kg m-3), st      *)
(* (retrieval status of iwc): the observations;  box, area, adv, advarea: what  *)
(* the file has (cf: 1e-5, area only there; water contents: 1e-8 kg m-3)        *)
EXTENDS TraceBase
R == INSTANCE GridRules
F == R!FILL
Shape(e, o) == Len(o) = Len(e.mt) /\ \A i \in 1..Len(o) : Len(o[i]) = Len(e.mh[i])
Field(e) == IF e.product = "cf" THEN [t \in 1..Len(e.px) |-> [z \in 1..Len(e.oh) |-> R!CfOf(e.px[t][z])]]
            ELSE IF e.product = "iwc" THEN [t \in 1..Len(e.px) |-> [z \in 1..Len(e.oh) |-> R!IwcOf(e.px[t][z], e.st[t][z])]]
            ELSE e.px
Mean(o, n, s, unit) == IF n = 0 THEN o = F ELSE o # F /\ Abs(o * n - s * unit) <= 3 * n
Judge(e) ==
    IF e.status # "ok" THEN {"WORKS"} ELSE
    LET cf == e.product = "cf"
        unit == IF cf THEN 100000 ELSE 100
        field == Field(e)
        mh == R!AboveSea(e.mh, e.sfc, e.site)
        Ts == [i \in 1..Len(e.mt) |-> {t \in 1..Len(e.ot) : R!InStep(e.mt, i, e.ot[t])}]
        Zs == [i \in 1..Len(e.mt) |-> [j \in 1..Len(mh[i]) |-> {z \in 1..Len(e.oh) : R!InLevel(mh[i], j, e.oh[z])}]]
        Adv(i, j) == {t \in 1..Len(e.ot) : R!InAdv(e.mt, i, e.wind[i][j], e.res, e.ot[t])}
        shapes == Shape(e, e.box) /\ Shape(e, e.adv) /\ (cf => Shape(e, e.area) /\ Shape(e, e.advarea))
    IN IF ~shapes THEN {"SHAPE"} ELSE
       LET bx == [i \in 1..Len(e.mt) |-> [j \in 1..Len(mh[i]) |-> R!Totals(field, Ts[i], Zs[i][j])]]
           av == [i \in 1..Len(e.mt) |-> [j \in 1..Len(mh[i]) |-> R!Totals(field, Adv(i, j), Zs[i][j])]]
           all(P(_, _)) == \A i \in 1..Len(e.mt) : \A j \in 1..Len(mh[i]) : P(i, j)
           known(i, j) == R!AdvKnown(e.wind[i][j])
       IN C("BOX", all(LAMBDA i, j : Mean(e.box[i][j], bx[i][j].n, bx[i][j].s, unit)))
          \cup C("AREA", cf => all(LAMBDA i, j : Mean(e.area[i][j], bx[i][j].cols, bx[i][j].cloudy, unit)))
          \cup C("ADV", all(LAMBDA i, j : known(i, j) => Mean(e.adv[i][j], av[i][j].n, av[i][j].s, unit)))
          \cup C("ADV_AREA", cf => all(LAMBDA i, j : known(i, j) => Mean(e.advarea[i][j], av[i][j].cols, av[i][j].cloudy, unit)))
          \cup C("FRACTION", cf => \A o \in {e.box, e.area, e.adv, e.advarea} : all(LAMBDA i, j : o[i][j] = F \/ (o[i][j] >= 0 /\ o[i][j] <= 100000)))
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
