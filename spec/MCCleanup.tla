------------------------------ MODULE MCCleanup -------------------------------
(* Small radar images are cleaned step by step.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS NT, NG
C == INSTANCE Cleanup WITH Margin <- 1, MinProfiles <- 2, MinValues <- 1
VARIABLES z, v, phase, noisy
vars == <<z, v, phase, noisy>>
Images == [1..NT -> [1..NG -> {0, 1}]]
Init == z \in Images /\ v \in Images /\ phase = "raw" /\ noisy \in BOOLEAN
Set == phase = "raw" /\ phase' = "speckle" /\ UNCHANGED noisy
       /\ z' = (IF noisy THEN C!Speckle(z) ELSE z) /\ v' = (IF noisy THEN C!Speckle(v) ELSE v)
StripeStep == phase = "speckle" /\ phase' = "stripes" /\ UNCHANGED <<z, noisy>> /\ v' = C!Velocity(v, z, v)
Finish == phase = "stripes" /\ phase' = "done" /\ UNCHANGED noisy /\ z' = C!Complete(z, {v}) /\ v' = C!Complete(v, {z})
Next == Set \/ StripeStep \/ Finish
Spec == Init /\ [][Next]_vars
Sub(a, b) == \A t \in 1..NT : \A g \in 1..NG : a[t][g] <= b[t][g]
OnlyRemoves == [][Sub(z', z) /\ Sub(v', v)]_vars
WhatIsLeftIsComplete == phase = "done" => z = v
(* a pixel with echo on a side that is no stripe, in time and in height, stays through the search for stripes *)
Beside(t, g, S1, S2) == /\ (t - 1 >= 1 /\ t - 1 \notin S1 /\ z[t - 1][g] = 1) \/ (t + 1 <= NT /\ t + 1 \notin S1 /\ z[t + 1][g] = 1)
                        /\ (g - 1 >= 1 /\ g - 1 \notin S2 /\ z[t][g - 1] = 1) \/ (g + 1 <= NG /\ g + 1 \notin S2 /\ z[t][g + 1] = 1)
CloudsStay == phase = "speckle" => LET S1 == C!Stripes(C!PerProfile(v)) S2 == C!Stripes(C!PerGate(v)) w == C!Velocity(v, z, v) IN
                  \A t \in 1..NT : \A g \in 1..NG : v[t][g] = 1 /\ Beside(t, g, S1, S2) => w[t][g] = 1
(* outer lines are never stripes, and a uniform image has none *)
Outer == phase = "speckle" => C!Stripes(C!PerProfile(v)) \cap {1, NT} = {}
Uniform == phase = "speckle" /\ (\A t \in 1..NT : v[t] = v[1]) => C!Stripes(C!PerProfile(v)) = {}
(* what has an echo before or after is no speckle; what is left has one *)
NoLone == phase = "speckle" /\ noisy => \A t \in 1..NT : \A g \in 1..NG : z[t][g] = 1 => (t > 1 /\ z[t - 1][g] = 1) \/ (t < NT /\ z[t + 1][g] = 1)
SpeckleOnce == phase = "raw" => C!Speckle(C!Speckle(z)) = C!Speckle(z)
Emit == phase = "raw" /\ noisy => PrintT("CASE " \o ToJson([z |-> z, v |-> v]))
=============================================================================
