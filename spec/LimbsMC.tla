------------------------------ MODULE LimbsMC ------------------------------
(* The limb arithmetic is integer arithmetic: every pair of words, every     *)
(* shift, every fraction.                                                    *)
EXTENDS Limbs
VARIABLES x, y
Words == [1..4 -> 0..(LBase - 1)]
Q == LBase * LBase * LBase * LBase
V(w) == w[1] + LBase * (w[2] + LBase * (w[3] + LBase * w[4]))
Init == x \in Words /\ y = LZero
Next == y = LZero /\ y' \in Words \ {LZero} /\ UNCHANGED x
Abs(i) == IF i < 0 THEN 0 - i ELSE i
C(i) == IF i >= Q \div 2 THEN i - Q ELSE i
Right ==
  /\ LWord(LAdd(x, y)) /\ V(LAdd(x, y)) = (V(x) + V(y)) % Q
  /\ LWord(LSub(x, y)) /\ V(LSub(x, y)) = (V(x) - V(y)) % Q
  /\ LLt(x, y) = (V(x) < V(y)) /\ LLe(x, y) = (V(x) <= V(y))
  /\ V(LAbs(x)) = Abs(C(V(x)))
  /\ V(LDist(x, y)) = Abs(C((V(x) - V(y)) % Q))
  /\ LNat(V(x)) = x
  /\ \A n \in 0..(WBits - 1) : V(LShl(x, n)) = (V(x) * 2^n) % Q /\ V(LShr(x, n)) = V(x) \div 2^n
  /\ LIsPow(x) = (\E n \in 0..(WBits - 1) : V(x) = 2^n)
  /\ LIsPow(x) => 2^LLog(x) = V(x)
  /\ \A d \in {2, 3, 6} : \A n \in 0..(d - 1) : V(LFrac(n, d)) = (n * Q) \div d
Spec == Init /\ [][Next]_<<x, y>>
=============================================================================
