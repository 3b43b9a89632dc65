------------------------------- MODULE Interp --------------------------------
(* Interpolation of measurements onto a grid.  Coordinates are integers      *)
(* ("ticks"); a sample is [t |-> coordinate, v |-> value, ok |-> valid].     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ticks, Values, MaxSamples, MaxGap
VARIABLE taken
ivars == <<taken>>

Dist(a, b) == IF a < b THEN b - a ELSE a - b
Valid(s) == {j \in 1..Len(s) : s[j].ok}
Stamps(s) == {s[j].t : j \in Valid(s)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Nearest(T, t) == {x \in T : \A y \in T : Dist(x, t) <= Dist(y, t)}
NearestDist(T, t) == Dist(MinOf(Nearest(T, t)), t)
Below(T, t) == MaxOf({x \in T : x <= t})
Above(T, t) == MinOf({x \in T : x >= t})
Outside(T, t) == t < MinOf(T) \/ t > MaxOf(T)
(* values measured at a time stamp (several when the stamp is repeated)      *)
At(s, t) == {s[j].v : j \in {i \in Valid(s) : s[i].t = t}}

(* no measurement closer than the limit: the result must be masked           *)
Gap(T, t, limit) == T = {} \/ NearestDist(T, t) > limit

(* the result o, a fraction num/den, is right for the target t               *)
LinearOk(s, t, num, den, tol) ==
    LET T == Stamps(s) IN
    IF t < MinOf(T) THEN \E v \in At(s, MinOf(T)) : Dist(num, v * den) <= tol
    ELSE IF t > MaxOf(T) THEN \E v \in At(s, MaxOf(T)) : Dist(num, v * den) <= tol
    ELSE LET a == Below(T, t)
             b == Above(T, t)
         IN IF a = b THEN \E v \in At(s, a) : Dist(num, v * den) <= tol
            ELSE \E v \in At(s, a), w \in At(s, b) :
                    Dist(num * (b - a), den * (v * (b - t) + w * (t - a))) <= tol * (b - a)
NearestOk(s, t, num, den, tol) ==
    \E x \in Nearest(Stamps(s), t) : \E v \in At(s, x) : Dist(num, v * den) <= tol

-----------------------------------------------------------------------------
(* design level: samples are taken one at a time; the interpolant is a       *)
(* function of what was taken so far                                         *)
Interpolant(s, t) ==    \* x 4 to stay within integers (brackets of 1, 2, 4 ticks)
    LET T == Stamps(s)
        v(x) == CHOOSE y \in At(s, x) : TRUE
    IN IF Gap(T, t, MaxGap) THEN "masked"
       ELSE IF t < MinOf(T) THEN ToString(4 * v(MinOf(T)))
       ELSE IF t > MaxOf(T) THEN ToString(4 * v(MaxOf(T)))
       ELSE LET a == Below(T, t)
                b == Above(T, t)
            IN IF a = b THEN ToString(4 * v(a))
               ELSE ToString((4 * (v(a) * (b - t) + v(b) * (t - a))) \div (b - a))
InitI == taken = <<>>
Take(t, v, ok) == /\ Len(taken) < MaxSamples
                  /\ \A j \in 1..Len(taken) : taken[j].t # t
                  /\ taken' = Append(taken, [t |-> t, v |-> v, ok |-> ok])
NextI == \E t \in Ticks, v \in Values, ok \in BOOLEAN : Take(t, v, ok)
SpecI == InitI /\ [][NextI]_ivars

Targets == MinOf(Ticks)..MaxOf(Ticks)
MaskedT(s) == {t \in Targets : Interpolant(s, t) = "masked"}
CoincidingValuesKept == \A j \in Valid(taken) : Interpolant(taken, taken[j].t) = ToString(4 * taken[j].v)
MaskedExactlyBeyondLimit ==
    \A t \in Targets : t \in MaskedT(taken) <=> \A j \in Valid(taken) : Dist(taken[j].t, t) > MaxGap
(* taking a measurement never masks anything; taking a missing one changes nothing *)
MoreDataLessMask == [][MaskedT(taken') \subseteq MaskedT(taken)]_ivars
MissingChangesNothing ==
    [][Stamps(taken') = Stamps(taken) => \A t \in Targets : Interpolant(taken', t) = Interpolant(taken, t)]_ivars
(* a measurement only affects the targets between its neighbours             *)
Local == [][\A t \in Targets : (Interpolant(taken', t) # Interpolant(taken, t) /\ taken # <<>>) =>
              LET n == taken'[Len(taken')].t
              IN ~ \E x \in Stamps(taken) : (n < x /\ x < t) \/ (t < x /\ x < n)]_ivars
=============================================================================
