----------------------------- MODULE Downsample -----------------------------
(* Profiles arrive one after another; every box adds up what falls into it.   *)
EXTENDS GridRules, TLC, Json
CONSTANTS Grids, Fields        \* model grids with observation axes; pixel fields (3 x 3)
VARIABLES g, px, k, acc
vars == <<g, px, k, acc>>
Boxes(x) == {<<i, j>> : i \in 1..Len(x.mt), j \in 1..Len(x.mh[1])}
Zero == [n |-> 0, s |-> 0, cols |-> 0, cloudy |-> 0]
Plus(a, c) == [n |-> a.n + c.n, s |-> a.s + c.s, cols |-> a.cols + (IF c.n > 0 THEN 1 ELSE 0), cloudy |-> a.cloudy + (IF c.s > 0 THEN 1 ELSE 0)]
LevelsOf(x, i, j) == {z \in 1..Len(x.oh) : InLevel(x.mh[i], j, x.oh[z])}
StepOf(x, i) == {t \in 1..Len(x.ot) : InStep(x.mt, i, x.ot[t])}
AdvOf(x, i, j) == {t \in 1..Len(x.ot) : InAdv(x.mt, i, x.wind[i][j], x.res, x.ot[t])}
Init == /\ g \in Grids /\ px \in Fields /\ k = 1
        /\ acc = [b \in Boxes(g) |-> [box |-> Zero, adv |-> Zero]]
Absorb == /\ k <= Len(g.ot) /\ k' = k + 1
          /\ acc' = [b \in Boxes(g) |->
                LET c == Column(px[k], LevelsOf(g, b[1], b[2]))
                IN [box |-> IF InStep(g.mt, b[1], g.ot[k]) THEN Plus(acc[b].box, c) ELSE acc[b].box,
                    adv |-> IF InAdv(g.mt, b[1], g.wind[b[1]][b[2]], g.res, g.ot[k]) THEN Plus(acc[b].adv, c) ELSE acc[b].adv]]
          /\ UNCHANGED <<g, px>>
Done == k = Len(g.ot) + 1
Next == Absorb \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Done
(* What was added up on the way is what the definition of the box says. *)
Streaming == Done => \A b \in Boxes(g) : LET Z == LevelsOf(g, b[1], b[2]) IN
                /\ acc[b].box = Totals(px, StepOf(g, b[1]), Z)
                /\ acc[b].adv = Totals(px, AdvOf(g, b[1], b[2]), Z)
(* No pixel counts twice, none within the grid is lost. *)
Partition == \A t \in 1..Len(g.ot), z \in 1..Len(g.oh) :
                LET in == {b \in Boxes(g) : t \in StepOf(g, b[1]) /\ z \in LevelsOf(g, b[1], b[2])}
                    n == Len(g.mt)
                    inT == 2 * g.mt[1] - (g.mt[2] - g.mt[1]) <= 2 * g.ot[t] /\ 2 * g.ot[t] < 2 * g.mt[n] + (g.mt[2] - g.mt[1])
                    i == CHOOSE x \in 1..n : t \in StepOf(g, x)
                IN /\ Cardinality(in) <= 1
                   /\ inT => \E x \in 1..n : t \in StepOf(g, x)
                   /\ (inT /\ Low2(g.mh[i], 1) <= 2 * g.oh[z] /\ 2 * g.oh[z] < Top2(g.mh[i], Len(g.mh[i]))) => Cardinality(in) = 1
(* Fractions are fractions.  By area is never less than by volume (if all of the box is known). *)
Fractions == \A b \in Boxes(g) : \A a \in {acc[b].box, acc[b].adv} :
                a.s >= 0 /\ a.s <= a.n /\ a.cloudy <= a.cols /\ (a.n > 0) = (a.cols > 0)
                /\ (a.n = a.cols * Cardinality(LevelsOf(g, b[1], b[2])) => a.s * a.cols <= a.cloudy * a.n)
(* Slower air, wider window; never more than an hour. *)
Wider == \A i \in 1..Len(g.mt), j \in 1..Len(g.mh[1]) : \A t \in AdvOf(g, i, j) :
                /\ g.ot[t] - g.mt[i] \in -32..31
                /\ \A w \in 1..g.wind[i][j] : InAdv(g.mt, i, w, g.res, g.ot[t])
Emit == Done => PrintT("CASE " \o ToJson([g |-> g, px |-> px]))
=============================================================================
