------------------------------ MODULE NoiseMC ------------------------------
(* The noise estimator of src/rlwe.rs over words of 8 bits: two coefficients *)
(* with every pair of errors.  It must report the largest centred distance.  *)
(* Variants: the signed maximum; the sign bit ignored; an absolute value     *)
(* which overflows for half of the modulus; only the last coefficient.       *)
EXTENDS Codec, FiniteSets
CONSTANT Variant
VARIABLES x, y, ref
Words == [1..4 -> 0..(LBase - 1)]
Init == x \in Words /\ y = LZero /\ ref \in {<<LZero, LZero>>, <<LFrac(1, 3), LFrac(2, 3)>>, <<LMax, LFrac(1, 2)>>}
Next == y = LZero /\ y' \in Words \ {LZero} /\ UNCHANGED <<x, ref>>
Spec == Init /\ [][Next]_<<x, y, ref>>

Phase == <<LAdd(ref[1], x), LAdd(ref[2], y)>>
Diff == <<LSub(Phase[1], ref[1]), LSub(Phase[2], ref[2])>>
\* what one coefficient contributes, and when it replaces the maximum so far
Size(w) == CASE Variant = "unsigned" -> w
             [] Variant = "overflow" -> IF w = LFrac(1, 2) THEN LZero ELSE LAbs(w)
             [] OTHER -> LAbs(w)
Takes(w, m) == CASE Variant = "last" -> TRUE
                 [] Variant = "signed" -> ~LNegative(w) /\ LLt(m, Size(w))
                 [] OTHER -> LLt(m, Size(w))
RECURSIVE Loop(_, _)
Loop(k, m) == IF k > 2 THEN m ELSE Loop(k + 1, IF Takes(Diff[k], m) THEN Size(Diff[k]) ELSE m)
Impl == Loop(1, LZero)
Refines == Impl = MaxDist(Phase, ref, 1, 2)
Bounds == /\ ~LLt(Impl, LDist(Phase[1], ref[1])) /\ ~LLt(Impl, LDist(Phase[2], ref[2]))
          /\ (Impl = LZero) = (Phase = ref)
=============================================================================
