------------------------------ MODULE CodecMC ------------------------------
(* Words of 8 bits: every modulus, message and error, and the algorithms of  *)
(* src/codec.rs.  The round trip is a theorem of the specification, and the  *)
(* algorithms satisfy the specification; the variants do not.                *)
EXTENDS Codec, FiniteSets
CONSTANT Variant
VARIABLES b, m, e
Words == [1..4 -> 0..(LBase - 1)]
Init == b \in 1..(WBits - 1) /\ m \in Words /\ e = LZero
Next == e = LZero /\ e' \in Words \ {LZero} /\ UNCHANGED <<b, m>>
Spec == Init /\ [][Next]_<<b, m, e>>

\* clearing low bits
Mask(x, n) == LShl(LShr(x, n), n)
Delta == LPow(WBits - b)
ImplDecode(x) ==
  LET r == CASE Variant = "floor" -> x
             [] Variant = "quarter" -> LAdd(x, LShr(Margin(b), 1))
             [] OTHER -> LAdd(x, Margin(b))
  IN LShr(Mask(r, WBits - b), WBits - b)

\* the constants come from floating-point arithmetic: any within the slack of the exact ones, here the floors
Third == LFrac(1, 3)
Sixth == LFrac(1, 6)
HalfW == LShr(LMax, 1)
FiveSixths == IF Variant = "wrapless" THEN LAdd(HalfW, Sixth) ELSE LAdd(HalfW, LAdd(Sixth, Sixth))
ImplTEncode(v) == IF v = LZero THEN LZero ELSE IF v = LOne THEN Third ELSE LAdd(Third, Third)
ImplTDecode(x) == IF LLt(Sixth, x) /\ LLe(x, HalfW) THEN LOne
                  ELSE IF LLt(HalfW, x) /\ LLe(x, FiveSixths) THEN MinusOne ELSE LZero

RoundTrip == Fits(b, m) /\ LLt(LAbs(e), Margin(b)) => Decode(b, LAdd(Encode(b, m), e)) = {m}
\* at the margin itself the message is still one of the nearest two
AtMargin == Fits(b, m) /\ LAbs(e) = Margin(b) => m \in Decode(b, LAdd(Encode(b, m), e))
Distinct == Fits(b, m) /\ Fits(b, e) /\ m # e => ~LLt(LDist(Encode(b, m), Encode(b, e)), LShl(Margin(b), 1))
DecodeFits == b < WBits => \A r \in Decode(b, e) : Fits(b, r)
DecodeRefines == ImplDecode(e) \in Decode(b, e)
TRoundTrip == b = 1 /\ Ternary(m) /\ LLt(LAbs(e), LSub(LFrac(1, 6), LNat(3 * Slack))) =>
                 \A y \in {w \in Words : TEncodes(m, w)} : \A v \in {LZero, LOne, MinusOne} : TDecodes(LAdd(y, e), v) <=> v = m
TRefines == b = 1 =>
            /\ Ternary(m) => TEncodes(m, ImplTEncode(m))
            /\ TDecodes(e, ImplTDecode(e))
=============================================================================
