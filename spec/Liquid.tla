-------------------------------- MODULE Liquid --------------------------------
(* Liquid water content of one profile.  The adiabatic content of a liquid   *)
(* layer grows from its base with the gradient of that base; if the topmost  *)
(* layer was seen by the lidar only and the adiabatic path falls short of    *)
(* the measured one, the layer is extended gate by gate (action Extend)      *)
(* until it does not, or the last gate is reached; then the measured path is *)
(* distributed over the profile in proportion.                               *)
EXTENDS Integers, Sequences
CONSTANTS NGates,
          Paths     \* measured paths, in the unit of the adiabatic path
VARIABLES liquid,   \* gate -> BOOLEAN
          echo,     \* gate -> 0 none, 1 lidar, 2 radar, 3 both
          lwp,      \* measured path (twice, so that ties can be avoided)
          added,    \* number of gates added on top
          phase     \* "extend" | "done"

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)

IsBase(liq, i) == liq[i] /\ (i = 1 \/ ~liq[i - 1])
RECURSIVE BaseOf(_, _)
(* base gate of the layer that gate i belongs to                             *)
BaseOf(liq, i) == IF i = 1 \/ ~liq[i - 1] THEN i ELSE BaseOf(liq, i - 1)
RECURSIVE TopOf(_, _)
TopOf(liq, i) == IF i = Len(liq) \/ ~liq[i + 1] THEN i ELSE TopOf(liq, i + 1)
LiquidGates(liq) == {i \in 1..Len(liq) : liq[i]}
HasLiquid(liq) == LiquidGates(liq) # {}
(* base and top of the topmost layer                                         *)
LastTop(liq) == CHOOSE i \in LiquidGates(liq) : \A j \in LiquidGates(liq) : j <= i
LastBase(liq) == BaseOf(liq, LastTop(liq))

(* adiabatic content of gate i: gradient of its base times the depth above   *)
(* the layer base (the base gate counts in full)                             *)
Depth(liq, path, i) == SumTo([k \in 1..i |-> IF k >= BaseOf(liq, i) THEN path[k] ELSE 0], i)
Adiabatic(liq, path, grad, i) == IF liq[i] THEN grad[BaseOf(liq, i)] * Depth(liq, path, i) ELSE 0

(* the topmost layer when n gates have been added: linear from its base      *)
Extended(liq, path, grad, n, i) ==
    LET b == LastBase(liq)
        t == LastTop(liq)
    IN IF n > 0 /\ i > b /\ i <= t + n THEN (grad[b] * path[b]) * (i - b + 1)
       ELSE Adiabatic(liq, path, grad, i)
AdiabaticPath(liq, path, grad, n) ==
    LET m == Len(liq) IN SumTo([i \in 1..m |-> Extended(liq, path, grad, n, i) * path[i]], m)

LidarOnly(liq, e) ==
    /\ HasLiquid(liq)
    /\ \A i \in LastBase(liq)..LastTop(liq) : e[i] \in {0, 1}
    /\ \E i \in LastBase(liq)..LastTop(liq) : e[i] = 1

(* ---- the machine, with unit gates and gradients ----                      *)
Unit == [i \in 1..NGates |-> 1]
Sum(n) == AdiabaticPath(liquid, Unit, Unit, n)
Adjustable == LidarOnly(liquid, echo) /\ 2 * Sum(0) < lwp
Init ==
    /\ liquid \in [1..NGates -> BOOLEAN]
    /\ echo \in [1..NGates -> {1, 2}]
    /\ \A i \in 1..NGates : ~liquid[i] => echo[i] = 1
    /\ lwp \in Paths
    /\ added = 0
    /\ phase = IF Adjustable THEN "extend" ELSE "done"
Extend ==
    /\ phase = "extend"
    /\ LET room == LastTop(liquid) + added < NGates
           n == IF room THEN added + 1 ELSE added
       IN /\ added' = n
          /\ phase' = IF ~room \/ 2 * Sum(n) > lwp \/ LastTop(liquid) + n = NGates THEN "done" ELSE "extend"
    /\ UNCHANGED <<liquid, echo, lwp>>
Next == Extend
Spec == Init /\ [][Next]_<<liquid, echo, lwp, added, phase>> /\ WF_<<added, phase>>(Extend)

(* no more gates than needed, and enough of them unless the top is reached   *)
Minimal == added > 1 => 2 * Sum(added - 1) <= lwp
Enough == (phase = "done" /\ Adjustable) => (2 * Sum(added) > lwp \/ LastTop(liquid) + added = NGates)
OnlyAbove == HasLiquid(liquid) => \A i \in 1..NGates : Extended(liquid, Unit, Unit, added, i) > 0 <=> (liquid[i] \/ (i > LastTop(liquid) /\ i <= LastTop(liquid) + added))
InRange == HasLiquid(liquid) => LastTop(liquid) + added <= NGates
Ends == <>(phase = "done")
=============================================================================
