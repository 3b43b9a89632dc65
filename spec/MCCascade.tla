------------------------------- MODULE MCCascade -------------------------------
(* Every small scene: what the decisions leave is consistent.                    *)
EXTENDS Cascade
CONSTANTS N, M, Sp, Bg
Kinds == {"none", "beta", "echo", "both", "insect", "insectBeta", "clutter", "drop", "dropEcho"}
VARIABLES g, mlt, frz, extra, out
Px == {P(x, y) : x \in 1..N, y \in 1..M}
Of(S) == {p \in Px : g[p] \in S}
Input ==
    [z |-> Of({"echo", "both", "insect", "insectBeta", "clutter", "dropEcho"}), b |-> Of({"beta", "both", "insectBeta", "drop", "dropEcho"}),
     drop |-> Of({"drop", "dropEcho"}), ins |-> Of({"insect", "insectBeta"}), clut |-> Of({"clutter"}), frz |-> frz, mlt |-> mlt,
     dom |-> IF extra.dom THEN Of({"dropEcho"}) ELSE {}, cold |-> IF extra.cold THEN Of({"beta"}) \cap frz ELSE {},
     scold |-> IF extra.scold THEN frz ELSE {}, mild |-> IF extra.scold THEN Px \ frz ELSE Px, hil |-> IF extra.hil THEN Of({"echo", "both"}) ELSE {},
     allow |-> IF extra.allow THEN 1..N ELSE {}]
Levels == [1..N -> 1..(M + 1)]
Init == /\ g \in [Px -> Kinds]
        /\ frz \in {{p \in Px : Y(p) >= lv[X(p)]} : lv \in Levels}
        /\ mlt \in SUBSET {p \in Px : Y(p) \in 2..3 /\ X(p) = 1}
        /\ extra \in [dom : {TRUE}, cold : BOOLEAN, scold : BOOLEAN, hil : {TRUE}, allow : {TRUE}]
        /\ out = <<>>
Next == out = <<>> /\ out' = Decide(Input, N, M, Sp, Bg) /\ UNCHANGED <<g, mlt, frz, extra>>
Spec == Init /\ [][Next]_<<g, mlt, frz, extra, out>>
Done == out # <<>>
I == Input
Exclusive == Done => out.aer \cap out.fal = {} /\ out.aer \cap out.drop = {} /\ out.ins \cap out.fal = {} /\ out.ins \cap out.drop = {}
AerosolIsTheRest == Done => out.aer = (I.b \ out.fal) \ out.drop
MeltingKept == Done => I.mlt \subseteq out.mlt
EchoesOnly == Done => out.ins \subseteq I.z /\ (out.fal \ I.z) \subseteq (I.cold \cup I.scold)
ClutterAlone == Done => out.clut \subseteq I.clut /\ out.clut \cap Grow(out.drop \cup (out.fal \ I.clut), N, M) = {}
ColdInsects == Done => out.ins \cap I.frz \cap AtOrAbove(I.mlt, M) = {}
NothingNew == Done => (out.drop \cup out.fal \cup out.aer \cup out.ins) \subseteq (I.z \cup I.b)
=============================================================================
