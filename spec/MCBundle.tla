------------------------------ MODULE MCBundle ------------------------------
EXTENDS Bundle, Json
D == 86400
MCPool == {[readable |-> r, epochday |-> ed, times |-> t] :
             r \in {TRUE}, ed \in {0, -1, -3}, t \in
               {<<0>>, <<D - 1>>, <<D>>, <<3 * D - 1, 3 * D>>, <<D - 1, D>>, <<2 * D - 1, 2 * D, 2 * D + 5>>}}
          \cup {[readable |-> FALSE, epochday |-> 0, times |-> <<5>>]}
Emit == todo # <<>> \/ Len(given) = 1 \/ PrintT("CASE " \o ToJson([files |-> given]))
=============================================================================
