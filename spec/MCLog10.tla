------------------------------- MODULE MCLog10 --------------------------------
(* The logarithm turns products into sums, is monotone and hits powers of 10.*)
EXTENDS Log10
VARIABLE x
Init == x \in {1, 7, 40, 399, 3999, 4001, 9999, 40001, 123457, 10000019}
Next == x < 20000000 /\ x' = 2 * x
Spec == Init /\ [][Next]_x
AbsV(a) == IF a < 0 THEN -a ELSE a
Powers == \A k \in 0..8 : AbsV(Lg(10^k) - 100000 * k) <= 12
Doubling == AbsV(Lg(2 * x) - Lg(x) - 30103) <= 24
Tripling == AbsV(Lg(3 * x) - Lg(x) - 47712) <= 24
=============================================================================
