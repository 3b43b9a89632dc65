------------------------------ MODULE MCConcat ------------------------------
EXTENDS Concat, Json
(* Small universe: 0, 1 or 2 profiles; two range grids; with or without a    *)
(* variable that the first file may have.                                    *)
Shape == [nt : 0..2, g : {<<10, 20>>, <<10, 21, 30>>, <<14, 18, 40, 41>>}, hasv : BOOLEAN, br : BOOLEAN]
MkVars(s) ==
    LET base == [time |-> [kind |-> "t", data |-> [i \in 1..s.nt |-> i]],
                 range |-> [kind |-> "axis", data |-> s.g],
                 w |-> [kind |-> "tr", data |-> [i \in 1..s.nt |-> [j \in 1..Len(s.g) |-> 100 * i + s.g[j]]]],
                 p |-> [kind |-> "r", data |-> [j \in 1..Len(s.g) |-> 7 * s.g[j]]],
                 s |-> [kind |-> "s", data |-> s.nt + 40]]
    IN IF s.hasv THEN base @@ [v |-> [kind |-> "t", data |-> [i \in 1..s.nt |-> 300 + i]]]
       ELSE base
MCUniverse == {[times |-> [i \in 1..s.nt |-> i], grid |-> s.g, broken |-> s.br, vars |-> MkVars(s)] :
    s \in {x \in Shape : /\ (x.nt # 1 \/ x.hasv)
                   /\ (x.br => x.nt = 2 /\ x.hasv /\ x.g = <<10, 20>>)}}
MCNames == {1, 2}
MCNames3 == {1, 2, 3}
Emit == phase = "run" \/ PrintT("CASE " \o ToJson([files |-> input, phase |-> phase, out |-> out]))
=============================================================================
