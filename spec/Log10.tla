-------------------------------- MODULE Log10 ---------------------------------
(* Decimal logarithm of a positive integer, times 10^5, good to about 10.    *)
(* The fraction is found bit by bit by squaring a mantissa kept in           *)
(* [4000, 40000), which stands for [1, 10).                                  *)
EXTENDS Integers
RECURSIVE Frac10(_, _)
Frac10(m, w) ==
    IF w = 0 THEN 0
    ELSE LET s == (m * m + 2000) \div 4000
         IN IF s >= 40000 THEN w + Frac10((s + 5) \div 10, w \div 2) ELSE Frac10(s, w \div 2)
RECURSIVE Lg(_)
Lg(x) ==
    IF x >= 40000 THEN 100000 + Lg((x + 5) \div 10)
    ELSE IF x < 4000 THEN Lg(10 * x) - 100000
    ELSE 360206 + Frac10(x, 50000)
=============================================================================
