-------------------------------- MODULE Poly --------------------------------
(* Polynomials over the integers and over Z_t modulo X^N + 1, as sequences   *)
(* of N coefficients, lowest degree first (position k holds the coefficient  *)
(* of X^(k-1)).                                                              *)
EXTENDS Integers, Sequences

PZero(n) == [k \in 1..n |-> 0]
PConst(n, c) == [k \in 1..n |-> IF k = 1 THEN c ELSE 0]
PMono(n, d, c) == [k \in 1..n |-> IF k = d + 1 THEN c ELSE 0]
PMod(t, x) == [k \in DOMAIN x |-> x[k] % t]
PAdd(t, x, y) == [k \in DOMAIN x |-> (x[k] + y[k]) % t]
PSub(t, x, y) == [k \in DOMAIN x |-> (x[k] - y[k]) % t]
PScale(t, c, x) == [k \in DOMAIN x |-> (c * x[k]) % t]

\* coefficient j (0-based) of x*y: sum over the non-zero x_i of x_i y_(j-i), negated when wrapping.
\* idx lists the non-zero positions of x; halves are summed separately to keep the recursion shallow.
Ctr(t, c) == LET r == c % t IN IF r > t \div 2 THEN r - t ELSE r   \* small products: TLC has 32-bit integers
RECURSIVE ConvSum(_, _, _, _, _, _, _, _)
ConvSum(t, n, x, y, idx, j, lo, hi) ==
  IF lo > hi THEN 0
  ELSE IF lo = hi
  THEN LET i == idx[lo] - 1
       IN (IF i <= j THEN Ctr(t, x[i + 1]) * Ctr(t, y[j - i + 1]) ELSE 0 - Ctr(t, x[i + 1]) * Ctr(t, y[n + j - i + 1])) % t
  ELSE LET m == (lo + hi) \div 2
       IN (ConvSum(t, n, x, y, idx, j, lo, m) + ConvSum(t, n, x, y, idx, j, m + 1, hi)) % t
PMul(t, x, y) ==
  LET n == Len(x)
      idx == SelectSeq([i \in 1..n |-> i], LAMBDA i : x[i] # 0)
  IN [k \in 1..n |-> ConvSum(t, n, x, y, idx, k - 1, 1, Len(idx))]

\* x * X^d for any d >= 0: X^N = -1
PShift(t, x, d) ==
  LET n == Len(x)
  IN [k \in 1..n |-> LET s == (k - 1 - d) % (2 * n)
                     IN IF s < n THEN x[s + 1] % t ELSE (0 - x[s - n + 1]) % t]
\* x / X^d
PDiv(t, x, d) == LET n == Len(x) IN PShift(t, x, (2 * n - (d % (2 * n))) % (2 * n))

\* p(X) -> p(X^e) for odd e: an automorphism
RECURSIVE Subst(_, _, _, _, _, _)
Subst(t, x, e, n, j, i) ==
  \* the coefficient of X^j in x(X^e): the i with i*e = j or j + n modulo 2n
  IF i = n THEN 0
  ELSE LET r == (i * e) % (2 * n)
       IN IF r = j THEN x[i + 1] % t
          ELSE IF r = j + n THEN (0 - x[i + 1]) % t
          ELSE Subst(t, x, e, n, j, i + 1)
PSubs(t, x, e) == LET n == Len(x) IN [k \in 1..n |-> Subst(t, x, e, n, k - 1, 0)]

\* N times the constant coefficient, everything else cleared
PTrace(t, x) == [k \in DOMAIN x |-> IF k = 1 THEN (Len(x) * x[1]) % t ELSE 0]

Abs(i) == IF i < 0 THEN 0 - i ELSE i
RECURSIVE L1Sum(_, _, _)
L1Sum(x, lo, hi) == IF lo > hi THEN 0 ELSE IF lo = hi THEN Abs(x[lo])
                    ELSE L1Sum(x, lo, (lo + hi) \div 2) + L1Sum(x, (lo + hi) \div 2 + 1, hi)
L1(x) == L1Sum(x, 1, Len(x))
\* ceil(log2 m), 0 for m <= 1
RECURSIVE CLog2(_)
CLog2(m) == IF m <= 1 THEN 0 ELSE 1 + CLog2((m + 1) \div 2)
Max(a, b) == IF a > b THEN a ELSE b
=============================================================================
