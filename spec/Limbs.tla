------------------------------- MODULE Limbs -------------------------------
(* Machine words as four limbs of LB bits, lowest first: TLC's integers have *)
(* 32 bits, the code's have 64 (LB = 16).  LimbsMC checks every operator     *)
(* here against integer arithmetic, exhaustively, with LB = 2.               *)
EXTENDS Integers, Sequences
CONSTANT LB
LBase == 2^LB
WBits == 4 * LB
LWord(x) == Len(x) = 4 /\ \A k \in 1..4 : x[k] \in 0..(LBase - 1)
LZero == <<0, 0, 0, 0>>
LOne == <<1, 0, 0, 0>>
LMax == <<LBase - 1, LBase - 1, LBase - 1, LBase - 1>>
\* a small natural number
LNat(n) == <<n % LBase, (n \div LBase) % LBase, IF LB >= 16 THEN 0 ELSE (n \div (LBase * LBase)) % LBase, IF LB >= 16 THEN 0 ELSE (n \div (LBase * LBase * LBase)) % LBase>>
\* modulo 2^WBits
LAdd(x, y) ==
  LET s1 == x[1] + y[1]
      s2 == x[2] + y[2] + s1 \div LBase
      s3 == x[3] + y[3] + s2 \div LBase
      s4 == x[4] + y[4] + s3 \div LBase
  IN <<s1 % LBase, s2 % LBase, s3 % LBase, s4 % LBase>>
LNot(x) == [k \in 1..4 |-> LBase - 1 - x[k]]
LNeg(x) == LAdd(LNot(x), LOne)
LSub(x, y) == LAdd(x, LNeg(y))
LLt(x, y) ==
  IF x[4] # y[4] THEN x[4] < y[4] ELSE IF x[3] # y[3] THEN x[3] < y[3]
  ELSE IF x[2] # y[2] THEN x[2] < y[2] ELSE x[1] < y[1]
LLe(x, y) == x = y \/ LLt(x, y)
LMaxOf(x, y) == IF LLt(x, y) THEN y ELSE x
LMinOf(x, y) == IF LLt(x, y) THEN x ELSE y
LNegative(x) == x[4] >= LBase \div 2
\* the distance from zero in the centred representation (2^(WBits-1) stays itself)
LAbs(x) == IF LNegative(x) THEN LNeg(x) ELSE x
LDist(x, y) == LAbs(LSub(x, y))
LGet(x, k) == IF k < 1 \/ k > 4 THEN 0 ELSE x[k]
LShl(x, n) ==
  LET q == n \div LB
      s == n % LB
  IN [k \in 1..4 |-> ((LGet(x, k - q) * 2^s) % LBase) + (LGet(x, k - q - 1) \div 2^(LB - s))]
LShr(x, n) ==
  LET q == n \div LB
      s == n % LB
  IN [k \in 1..4 |-> (LGet(x, k + q) \div 2^s) + ((LGet(x, k + q + 1) % 2^s) * 2^(LB - s))]
\* 2^n for n < WBits
LPow(n) == LShl(LOne, n)
LIsPow(x) == \E n \in 0..(WBits - 1) : x = LPow(n)
LLog(x) == CHOOSE n \in 0..(WBits - 1) : x = LPow(n)
\* floor(num * 2^WBits / den) for num < den, by long division
LFrac(num, den) ==
  LET d4 == num * LBase
      d3 == (d4 % den) * LBase
      d2 == (d3 % den) * LBase
      d1 == (d2 % den) * LBase
  IN <<d1 \div den, d2 \div den, d3 \div den, d4 \div den>>
=============================================================================
