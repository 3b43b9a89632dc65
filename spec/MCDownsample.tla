---------------------------- MODULE MCDownsample ----------------------------
EXTENDS Downsample
(* Two time steps of half an hour, two levels; pixels on, just below and just *)
(* above every edge.  Wind 1..; window of res / wind.                         *)
MH == {<<<<1000, 2000>>, <<1000, 2000>>>>, <<<<1000, 2000>>, <<2000, 4000>>>>}
Axes == {<<<<15, 16, 47>>, <<500, 1500, 2999>>>>, <<<<48, 79, 80>>, <<-1, 0, 3000>>>>, <<<<16, 48, 64>>, <<1499, 2000, 3000>>>>, <<<<24, 40, 72>>, <<1499, 1501, 5999>>>>}
Winds == {<<<<1, 5>>, <<10, 20>>>>, <<<<5, 5>>, <<40, 1>>>>}
MCGrids == {[mt |-> <<32, 64>>, mh |-> h, ot |-> a[1], oh |-> a[2], wind |-> w, res |-> r] : h \in MH, a \in Axes, w \in Winds, r \in {9000, 18000}}
Rows == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 1>>, <<FILL, 1, 0>>, <<1, FILL, FILL>>, <<FILL, FILL, FILL>>}
MCFields == [1..3 -> Rows]
=============================================================================
