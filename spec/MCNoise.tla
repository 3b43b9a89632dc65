------------------------------ MODULE MCNoise ------------------------------
(* One profile is screened step by step, for every small profile: what is     *)
(* left only shrinks, is positive, and does not depend on the order in which  *)
(* independent steps are read.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Values, N, Tolerated, NoiseMin
S == INSTANCE NoiseRules WITH Share <- 3, Skip <- 1, Window <- 4, LowGates <- 2, Low <- 800, FogLow <- 400, FogSum <- 2000, FogSd <- 4, NoNoise <- 0, Big <- 100000, Cloud <- 1000
MCValues == {-999999, -30, 60, 5000}
MCMore == {-999999, -30, 3, 60, 500, 5000}
VARIABLES u, phase, st
vars == <<u, phase, st>>
F == S!FILL
Ten(g) == 5000
Exact(g) == 1
Strong(t, g) == u[g] > 1000
Final(x) == S!Screen(x, x, Tolerated, NoiseMin, Ten, Exact)
Neg(x) == LET is(g) == x[g] # F /\ x[g] < 0 IN S!First(S!Runs(is, Tolerated, N))
Init == /\ u \in [1..N -> Values]
        /\ phase = "raw"
        /\ st = [g \in 1..N |-> IF u[g] = F THEN "m" ELSE "k"]
Step(p, q, new) == phase = p /\ phase' = q /\ st' = [g \in 1..N |-> IF st[g] = "m" THEN "m" ELSE new[g]] /\ UNCHANGED u
Next == \/ Step("raw", "runs", S!AboveRun(u, Neg(u)))
        \/ Step("runs", "done", Final(u))
Spec == Init /\ [][Next]_vars
Shrinks == [][\A g \in 1..N : st[g] = "m" => st'[g] = "m"]_vars
(* nothing that is not positive survives, nothing missing appears *)
Physical == phase = "done" => \A g \in 1..N : st[g] = "k" => u[g] # F /\ u[g] > 0
(* a strong echo below the first run of negatives survives in clear air *)
Echo == phase = "done" /\ S!IsFog(u) = "n" =>
        \A g \in 1..N : (u[g] = 5000 /\ (S!Sd(u, S!TopGates(N)) \in 0..900)) => st[g] # "m"
(* the result is the same when the screened profile is screened as a whole *)
Same == phase = "done" => \A g \in 1..N : st[g] = Final(u)[g] \/ Final(u)[g] = "a" \/ st[g] = "a"
(* adding noise at the top removes, never adds, elsewhere *)
Noisier == phase = "done" /\ Neg(u) = 0 /\ S!IsFog(u) = "n" =>
    \A v \in {x \in Values : x # F /\ x > 400} :
        LET w == [u EXCEPT ![N] = v]
        IN S!IsFog(w) = "n" /\ Neg(w) = 0 /\ S!Sd(w, S!TopGates(N)) >= S!Sd(u, S!TopGates(N)) =>
             \A g \in 1..N - 2 : Final(w)[g] = "k" => st[g] # "m"
(* mirrored smoothing of a constant is that constant *)
Constant == phase = "raw" /\ (\A g \in 1..N : u[g] = u[1]) /\ u[1] # F /\ u[1] <= 1000 /\ u[1] >= 0 =>
    LET r == S!Smoothed(<<u, u>>, 10, 20, Strong) IN \A t \in 1..2 : \A g \in 1..N : r[t][g] \in {u[1], u[1] - 1, u[1] - 2}
(* smoothing stays within the range of what is smoothed *)
Between == phase = "raw" /\ (\E g \in 1..N : u[g] # F) =>
    LET r == S!Smoothed(<<u>>, 1, 10, Strong)
        V == {S!MaxV(S!MinV(u[g], 1000), -1000) : g \in {x \in 1..N : u[x] # F}}
    IN \A g \in 1..N : u[g] # F /\ u[g] <= 1000 => \E a \in V : \E b \in V : r[1][g] >= a - 12 /\ r[1][g] <= b + 12
Gaps == phase = "raw" => LET r == S!Smoothed(<<u>>, 1, 10, Strong) IN \A g \in 1..N : (r[1][g] = F) <=> (u[g] = F)
=============================================================================
