----------------------------- MODULE NoiseRules -----------------------------
(* Screening of noise from the attenuated backscatter of a lidar.             *)
(* Backscatter in 1e-11 sr-1 m-1.  A profile is a sequence over the gates;    *)
(* R: calibrated, corrected for range;  U: with the correction undone, so     *)
(* that the noise of the receiver does not grow with range (km).              *)
(* What can be said about a gate:  "k" the value is kept, "m" it is missing,  *)
(* "a" either (so close to a limit that rounding decides).                    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Share, Skip, Window, LowGates, Low, FogLow, FogSum, FogSd, NoNoise, Big, Cloud
FILL == -999999
AbsV(x) == IF x < 0 THEN -x ELSE x
MaxV(a, b) == IF a > b THEN a ELSE b
MinV(a, b) == IF a < b THEN a ELSE b

RECURSIVE Bisect(_, _, _)
Bisect(x, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET mid == (lo + hi) \div 2 IN IF mid * mid <= x THEN Bisect(x, mid, hi) ELSE Bisect(x, lo, mid)
ISqrt(x) == Bisect(x, 0, 46341)
SumOver(f(_), a, b) == MapThenSumSet(f, a..b)

(* 1 / Share (a tenth) of the gates, rounded half to even *)
Top(n) == LET q == n \div Share IN IF 2 * (n % Share) = Share THEN q + (q % 2) ELSE (2 * n + Share) \div (2 * Share)
TopGates(n) == n - Top(n) + 1..n
(* Standard deviation of values x[g], g in G, times 1 (scaled down first when they are large) *)
Sd(x, G) ==
    LET V == {g \in G : x[g] # FILL}
    IN IF V = {} THEN FILL
       ELSE LET k == Cardinality(V)
                x0 == x[CHOOSE g \in V : TRUE]
                big == CHOOSE y \in {AbsV(x[g] - x0) : g \in V} : \A g \in V : AbsV(x[g] - x0) <= y
                d == 1 + big \div (30000 \div k)
                lo == CHOOSE g \in V : \A h \in V : g <= h
                hi == CHOOSE g \in V : \A h \in V : g >= h
                f(g) == IF x[g] = FILL THEN 0 ELSE ((x[g] - x0) \div d) * ((x[g] - x0) \div d)
                s(g) == IF x[g] = FILL THEN 0 ELSE (x[g] - x0) \div d
                sq == SumOver(f, lo, hi)
                su == SumOver(s, lo, hi)
            IN (ISqrt(k * sq - su * su) * d) \div k

(* ---- long runs of negative values: nothing weak is believed from there up --- *)
(* first gate at which more than n values in a row have been negative: 0 if none *)
Runs(neg(_), n, N) ==
    {g \in Skip + 1 + n..MinV(N, Skip + Window) : \A h \in g - n..g : neg(h)}
First(S) == IF S = {} THEN 0 ELSE CHOOSE g \in S : \A h \in S : g <= h
AboveRun(U, first) == [g \in 1..Len(U) |-> IF first = 0 \/ g < first THEN "k" ELSE IF AbsV(U[g] - Low) <= Low \div 100 THEN "a" ELSE IF U[g] < Low THEN "m" ELSE "k"]

(* ---- fog, or a saturated receiver ------------------------------------------ *)
FogAmount(R) == LET f(g) == IF R[g] = FILL THEN 0 ELSE MinV(AbsV(R[g]), FogSum) IN SumOver(f, 1, MinV(LowGates, Len(R)))
(* "y", "n" or "a" *)
IsFog(R) ==
    LET a == FogAmount(R)
        s == Sd(R, TopGates(Len(R)))
        near == AbsV(a - FogSum) <= FogSum \div 1000
        snear == s # FILL /\ AbsV(s - FogSd) <= 1 + FogSd \div 40
    IN IF a > FogSum /\ ~near THEN "y"
       ELSE IF s # FILL /\ s < FogSd /\ ~snear THEN "y"
       ELSE IF near \/ snear \/ s = FILL THEN "a" ELSE "n"

(* ---- the screening ----------------------------------------------------------- *)
(* first: gate from which weak values are not believed; fog; limit: smallest value that stands out of the noise *)
After(U, st, first, fog, limit(_)) ==
    LET seen == {g \in 1..Len(U) : st[g] # "m" /\ U[g] # FILL}
        top == IF seen = {} THEN 0 ELSE CHOOSE v \in {U[g] : g \in seen} : \A g \in seen : U[g] <= v
        peaks == {g \in seen : U[g] >= top - AbsV(top) \div 50 - 1}
        p1 == IF peaks = {} THEN 1 ELSE First(peaks)
        p2 == IF peaks = {} THEN 1 ELSE CHOOSE g \in peaks : \A h \in peaks : g >= h
        cut(g) == IF fog = "n" \/ g < p1 THEN "k"
                  ELSE IF U[g] >= FogLow + FogLow \div 100 THEN "k"
                  ELSE IF fog = "y" /\ g >= p2 /\ U[g] < FogLow - FogLow \div 100 THEN "m" ELSE "a"
        snr(g) == LET z == IF first > 0 \/ fog = "y" THEN NoNoise ELSE limit(g)
                  IN IF U[g] > z + z \div 50 + 1 THEN "k" ELSE IF U[g] <= z - z \div 50 - 1 THEN "m" ELSE "a"
        both(x, y) == IF x = "m" \/ y = "m" THEN "m" ELSE IF x = "a" \/ y = "a" THEN "a" ELSE "k"
    IN TLCEval([g \in 1..Len(U) |-> IF U[g] = FILL THEN "m" ELSE both(st[g], both(cut(g), snr(g)))])
(* n: negative values in a row that are tolerated;  noiseMin;  snr(g): 1000 times the signal-to-noise needed;
   tol: how well the values of U are known *)
Screen(U, R, n, noiseMin, snr(_), tol(_)) ==
    LET N == Len(U)
        sure(g) == U[g] # FILL /\ U[g] < -tol(g)
        maybe(g) == U[g] = FILL \/ U[g] < tol(g) \/ U[g] < 0
        f1 == First(Runs(sure, n, N))
        f2 == First(Runs(maybe, n, N))
        fog == IsFog(R)
        sd == Sd(U, TopGates(N))
        limit(g) == (MaxV(IF sd = FILL THEN 0 ELSE sd, noiseMin) * snr(g)) \div 1000
        fuzzy(g) == tol(g) > 1 /\ U[g] # FILL /\ AbsV(U[g] - limit(g)) <= 2 * tol(g)
        weak(g) == tol(g) > 1 /\ U[g] # FILL /\ AbsV(U[g]) <= 2 * tol(g) /\ (f1 > 0 \/ fog = "y")
        all == After(U, AboveRun(U, f1), f1, fog, limit)
    IN IF f1 # f2 \/ fog = "a" \/ (sd = FILL /\ f1 = 0 /\ fog = "n")
       THEN [g \in 1..N |-> IF U[g] = FILL \/ U[g] < -tol(g) THEN "m" ELSE "a"]
       ELSE [g \in 1..N |-> IF all[g] # "m" /\ f1 = 0 /\ fog = "n" /\ fuzzy(g) THEN "a"
                            ELSE IF weak(g) /\ (f1 = 0 \/ g < f1) THEN "a"
                            ELSE IF all[g] = "m" /\ U[g] # FILL /\ U[g] > 0 /\ f1 = 0 /\ fog = "n" /\ fuzzy(g) THEN "a" ELSE all[g]]

(* Undoing the correction for range of the first `last` gates: gate g is at pos[g] units, fac = 1e4 / (unit in 10 m)^2 *)
Undo(R, fac, pos, last) == TLCEval([g \in 1..Len(R) |->
    IF R[g] = FILL \/ g > last THEN R[g]
    ELSE LET s == IF R[g] < 0 THEN -1 ELSE 1
             a == AbsV(R[g])
             p == pos[g] * pos[g]
             q == a \div p
         IN s * (IF q >= Big \div fac THEN Big ELSE q * fac + ((a % p) * fac) \div p)])

(* ---- smoothing: Gaussian over 1 min and 10 m -------------------------------- *)
(* weights (1e-4) of a Gaussian of sigma times the step: key 10 sigma            *)
Kernel == [x \in {1, 5, 10, 20} |->
    CASE x = 1 -> <<10000>>
      [] x = 5 -> <<7866, 1064, 3>>
      [] x = 10 -> <<3990, 2420, 540, 44, 1>>
      [] OTHER -> <<1995, 1760, 1210, 647, 270, 88, 22, 4, 1>>]
Reach(s) == Len(Kernel[s]) - 1
Weight(s, d) == Kernel[s][AbsV(d) + 1]
(* edges are mirrored *)
Mirror(i, n) == LET p == (i - 1) % (2 * n) IN IF p < n THEN p + 1 ELSE 2 * n - p
(* X: field in which missing values are 0 *)
Rows(n, N, f(_, _)) == TLCEval([t \in 1..n |-> TLCEval([g \in 1..N |-> f(t, g)])])
SmoothT(X, s) ==
    LET f(t, g) == LET h(d) == Weight(s, d) * X[Mirror(t + d, Len(X))][g] IN SumOver(h, -Reach(s), Reach(s)) \div 10000
    IN Rows(Len(X), Len(X[1]), f)
SmoothG(X, s) ==
    LET f(t, g) == LET h(d) == Weight(s, d) * X[t][Mirror(g + d, Len(X[1]))] IN SumOver(h, -Reach(s), Reach(s)) \div 10000
    IN Rows(Len(X), Len(X[1]), f)
Smooth(X, st, sg) == LET a == IF st = 1 THEN X ELSE SmoothT(X, st) IN IF sg = 1 THEN a ELSE SmoothG(a, sg)
(* Field smoothed everywhere but in strong clouds, from what is not missing;  cloud(t, g): is it one *)
Smoothed(R, st, sg, cloud(_, _)) ==
    LET n == Len(R)
        N == Len(R[1])
        x(t, g) == IF R[t][g] = FILL THEN 0 ELSE IF cloud(t, g) THEN Cloud ELSE MaxV(MinV(R[t][g], 2 * Cloud), -2 * Cloud)
        w(t, g) == IF R[t][g] = FILL THEN 0 ELSE 10000
        gaps == \E t \in 1..n : \E g \in 1..N : R[t][g] = FILL
        S == Smooth(Rows(n, N, x), st, sg)
        W == IF gaps THEN Smooth(Rows(n, N, w), st, sg) ELSE <<>>
        part(v, u) == IF u >= 10000 THEN v ELSE (v \div u) * 10000 + ((v % u) * 10000) \div u
        f(t, g) == IF R[t][g] = FILL THEN FILL
                   ELSE IF cloud(t, g) THEN R[t][g]
                   ELSE IF gaps THEN part(S[t][g], W[t][g]) ELSE S[t][g]
    IN Rows(n, N, f)

(* ---- a day of profiles: strong sunlight makes signal at every height -------- *)
(* kept: number of the 20 layers above 10 km that have some value *)
Layers(N, low) == (N - low) \div 20
Lit(has(_), N, low) ==
    LET b == Layers(N, low) IN Cardinality({k \in 0..19 : \E g \in low + k * b + 1..low + (k + 1) * b : has(g)})
Sunlit(has(_), N, low) == low < N /\ Lit(has, N, low) >= 15
=============================================================================
