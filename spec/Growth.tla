------------------------------- MODULE Growth -------------------------------
(* Noise over a history of accesses, in sixteenths of a bit.                 *)
(* The noise of a response is what the access itself adds (the same for      *)
(* every access with the same parameters) and what earlier accesses left in  *)
(* the item: proportional to their number at worst.                          *)
EXTENDS Integers, Sequences
\* 16 log2 m, rounded up, for m >= 1: linear between powers of two lies below, so add the largest gap (1.4)
Lg(m) == LET RECURSIVE F(_)
             F(k) == IF 2^(k + 1) > m THEN k ELSE F(k + 1)
             p == F(0)
         IN 16 * p + ((16 * (m - 2^p)) \div 2^p) + (IF m = 2^p THEN 0 ELSE 2)

\* after k accesses, the first responses having shown n1 (slack: the extremes of so many coefficients vary)
Additive(n1, k, slack) == n1 + Lg(1 + 2 * k) + slack
\* a response is well inside the margin of modulus 2^b when two bits remain
Inside(nz, b) == nz <= 16 * (63 - b) - 32
=============================================================================
