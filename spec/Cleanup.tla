------------------------------- MODULE Cleanup --------------------------------
(* Removal of artefacts from radar data before the classification.           *)
(* p[t][g] is 1 where a variable has a value in gate g of profile t.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Margin,      \* lines on each side that a line is compared with
          MinProfiles, \* fewer profiles with data: no stripes are looked for
          MinValues    \* lines with fewer values are no stripes
LOCAL Max(a, b) == IF a > b THEN a ELSE b
T(p) == Len(p)
G(p) == Len(p[1])
Grid(p, P(_, _)) == TLCEval([t \in 1..T(p) |-> [g \in 1..G(p) |-> IF P(t, g) THEN 1 ELSE 0]])
(* speckle: values without a value in the profile before or after *)
Speckle(p) == Grid(p, LAMBDA t, g : p[t][g] = 1 /\ ((t > 1 /\ p[t - 1][g] = 1) \/ (t < T(p) /\ p[t + 1][g] = 1)))
(* velocities of the first gate that are too fast *)
FirstGate(p, fast) == Grid(p, LAMBDA t, g : p[t][g] = 1 /\ ~(g = 1 /\ fast[t] = 1))
(* number of values of each profile, of each gate *)
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
PerProfile(p) == TLCEval([t \in 1..T(p) |-> Cardinality({g \in 1..G(p) : p[t][g] = 1})])
PerGate(p) == TLCEval([g \in 1..G(p) |-> Cardinality({t \in 1..T(p) : p[t][g] = 1})])
Sorted(s) == SortSeq(s, <)
(* four times the k-th quartile, linearly interpolated *)
Quartile(s, k) == LET n == k * (Len(s) - 1)
                      i == n \div 4
                      r == n % 4
                  IN 4 * s[i + 1] + (IF r = 0 THEN 0 ELSE r * (s[i + 2] - s[i + 1]))
Stripe(n, i) ==
    LET w == Sorted([j \in 1..(2 * Margin) |-> n[IF j <= Margin THEN i - Margin - 1 + j ELSE i + j - Margin]])
        q1 == Quartile(w, 1)
        q3 == Quartile(w, 3)
    IN ~(q3 = q1 /\ q3 > 0) /\ 4 * n[i] > Max(q3 + 3 * Max(q3 - q1, 4), 4 * MinValues)
Stripes(n) == TLCEval({i \in (Margin + 1)..(Len(n) - Margin) : Stripe(n, i)})
Below(i, S) == CHOOSE j \in 0..(i - 1) : j \notin S /\ \A k \in (j + 1)..(i - 1) : k \in S
Above(i, S, n) == CHOOSE j \in (i + 1)..(n + 1) : j \notin S /\ \A k \in (i + 1)..(j - 1) : k \in S
(* values of stripes, except those next to a value beside the stripe *)
DropProfiles(p, src, S) ==
    IF S = {} THEN p ELSE
    LET lo == TLCEval([i \in S |-> Below(i, S)])
        hi == TLCEval([i \in S |-> Above(i, S, T(p))])
        lone(t, g) == t \in S /\ src[t][g] = 1 /\ (lo[t] = 0 \/ src[lo[t]][g] = 0) /\ (hi[t] > T(p) \/ src[hi[t]][g] = 0)
    IN Grid(p, LAMBDA t, g : p[t][g] = 1 /\ ~lone(t, g))
DropGates(p, src, S) ==
    IF S = {} THEN p ELSE
    LET lo == TLCEval([i \in S |-> Below(i, S)])
        hi == TLCEval([i \in S |-> Above(i, S, G(p))])
        lone(t, g) == g \in S /\ src[t][g] = 1 /\ (lo[g] = 0 \/ src[t][lo[g]] = 0) /\ (hi[g] > G(p) \/ src[t][hi[g]] = 0)
    IN Grid(p, LAMBDA t, g : p[t][g] = 1 /\ ~lone(t, g))
Enough(p) == Cardinality({t \in 1..T(p) : \E g \in 1..G(p) : p[t][g] = 1}) >= MinProfiles
(* velocity is removed where the echo of a stripe is isolated *)
Velocity(v, z, counted) == IF ~Enough(counted) THEN v ELSE DropGates(DropProfiles(v, z, Stripes(PerProfile(counted))), z, Stripes(PerGate(counted)))
(* the variable that has the stripe itself *)
Own(x) == IF ~Enough(x) THEN x ELSE LET a == DropProfiles(x, x, Stripes(PerProfile(x))) IN DropGates(a, a, Stripes(PerGate(x)))
(* only pixels with everything that is required *)
Complete(x, req) == Grid(x, LAMBDA t, g : x[t][g] = 1 /\ \A r \in req : r[t][g] = 1)
=============================================================================
