------------------------------- MODULE Codec -------------------------------
(* Encoding of plaintexts: src/codec.rs.  Words are limb sequences.          *)
EXTENDS Limbs
CONSTANT Slack      \* how far the ternary constants may be from the exact thirds

Margin(b) == LPow(WBits - 1 - b)
Fits(b, m) == LLt(m, LPow(b))
Encode(b, m) == LShl(m, WBits - b)
\* the message whose encoding is nearest; half way between two messages either is as near
Decode(b, x) ==
  LET r == LShr(LAdd(x, Margin(b)), WBits - b)
      tie == LDist(x, Encode(b, r)) = Margin(b)
  IN IF tie THEN {r, LShr(LSub(x, Margin(b)), WBits - b)} ELSE {r}

\* ternary values are words themselves: 0, 1 and -1
MinusOne == LMax
Ternary(v) == v \in {LZero, LOne, MinusOne}
Centre(v) == IF v = LZero THEN LZero ELSE IF v = LOne THEN LFrac(1, 3) ELSE LFrac(2, 3)
TEncodes(v, y) == LLe(LDist(y, Centre(v)), LNat(Slack)) /\ (v = LZero => y = LZero)
TDecodes(x, v) == Ternary(v) /\ LLe(LDist(x, Centre(v)), LAdd(LFrac(1, 6), LNat(Slack)))

\* the largest centred distance between a phase and an encoding
RECURSIVE MaxDist(_, _, _, _)
MaxDist(a, c, lo, hi) == IF lo = hi THEN LDist(a[lo], c[lo])
                         ELSE LMaxOf(MaxDist(a, c, lo, (lo + hi) \div 2), MaxDist(a, c, (lo + hi) \div 2 + 1, hi))
=============================================================================
