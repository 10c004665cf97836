----------------------------- MODULE CodecTrace -----------------------------
(* Is a recorded run of the real encoder and noise estimator a behaviour of  *)
(* Codec?  State: the number of bits of the current plaintext modulus.       *)
EXTENDS Codec, TraceBase
VARIABLES l, diag, bits
tvars == <<l, diag, bits>>
E == Trace[l]
OK == E.out = "ok"
Refused(y) == y = <<>>
All(op(_)) == \A i \in DOMAIN E.xl : op(i)

\* what the current encoder may answer for a word ({} : refuse)
EncOK(x, y) == IF Fits(bits, x) THEN y = Encode(bits, x) ELSE Refused(y)
DecOK(x, y) == ~Refused(y) /\ y \in Decode(bits, x)
TEncOK(x, y) == IF Ternary(x) THEN ~Refused(y) /\ TEncodes(x, y) ELSE Refused(y)
TDecOK(x, y) == ~Refused(y) /\ TDecodes(x, y)
\* the polynomial form: every coefficient as alone, or refused as a whole
Poly == IF \E i \in DOMAIN E.ys : Refused(E.ys[i]) THEN E.ps = <<>> ELSE E.ps = E.ys

\* a logarithm is reported as a floating-point number
Near(x, y) == LLe(LSub(LMaxOf(x, y), LMinOf(x, y)), LAdd(LShr(LMaxOf(x, y), 40), LOne))
Encoding(form, b, v, y) == CASE form = "raw" -> y = v [] form = "mod" -> y = Encode(b, v) [] OTHER -> TEncodes(v, y)
Unit(n, sh) == [k \in 1..n |-> IF k = 1 THEN LPow(sh) ELSE LZero]

Step ==
  CASE E.ev = "codec" -> IF OK THEN /\ bits' = (IF LIsPow(E.tl) THEN LLog(E.tl) ELSE 1)
                                    /\ diag' = Obs("accepted", LIsPow(E.tl)) \cup
                                         (IF LIsPow(E.tl) THEN Obs("margin", E.margin = Margin(LLog(E.tl))) \cup Obs("modulus", E.modulus = E.tl /\ E.bits = LLog(E.tl)) ELSE {})
                         ELSE bits' = bits /\ diag' = Obs("modulus-refused", ~LIsPow(E.tl))
    [] E.ev = "encode" -> bits' = bits /\ diag' = (IF OK THEN Obs("encode", All(LAMBDA i : EncOK(E.xl[i], E.ys[i]))) \cup Obs("poly", Poly) ELSE {"encode"})
    [] E.ev = "decode" -> bits' = bits /\ diag' = (IF OK THEN Obs("decode", All(LAMBDA i : DecOK(E.xl[i], E.ys[i]))) \cup Obs("poly", Poly) ELSE {"decode"})
    [] E.ev = "tenc" -> bits' = bits /\ diag' = (IF OK THEN Obs("ternary-encode", All(LAMBDA i : TEncOK(E.xl[i], E.ys[i]))) \cup Obs("poly", Poly) ELSE {"tenc"})
    [] E.ev = "tdec" -> bits' = bits /\ diag' = (IF OK THEN Obs("ternary-decode", All(LAMBDA i : TDecOK(E.xl[i], E.ys[i]))) \cup Obs("poly", Poly) ELSE {"tdec"})
    [] E.ev = "rt" -> /\ bits' = bits
                      /\ diag' = IF ~OK THEN {"round-trip"}
                         ELSE Obs("round-trip", \A i \in DOMAIN E.ml :
                                IF E.tern THEN (Ternary(E.ml[i]) => TEncOK(E.ml[i], E.enc[i]) /\ (LLt(LAbs(E.el[i]), LSub(LFrac(1, 6), LNat(3 * Slack))) => E.ys[i] = E.ml[i]))
                                ELSE (Fits(bits, E.ml[i]) => E.enc[i] = Encode(bits, E.ml[i]) /\ (LLt(LAbs(E.el[i]), Margin(bits)) => E.ys[i] = E.ml[i])))
    [] E.ev = "noisectx" -> bits' = E.b /\ diag' = Obs("context", OK)
    [] E.ev = "noise" -> /\ bits' = bits
                         /\ diag' = IF ~OK THEN {"noise-refused"}
                            ELSE LET m == MaxDist(E.ph, E.el, 1, Len(E.ph))
                                 IN Obs("encoding", Len(E.ph) = Len(E.pl) /\ \A i \in DOMAIN E.pl : Encoding(E.form, bits, E.pl[i], E.el[i]))
                                    \cup Obs("operands", E.kept)
                                    \cup Obs("no-noise", E.none = (m = LZero))
                                    \cup Obs("maximum", m = LZero \/ (E.pow # <<>> /\ Near(m, E.pow)))
    [] E.ev = "gswnoise" -> /\ bits' = bits
                            /\ diag' = IF ~OK THEN {"noise-refused"}
                               ELSE LET M == [k \in DOMAIN E.rows |-> MaxDist(E.rows[k], Unit(Len(E.rows[k]), WBits - E.bl * k), 1, Len(E.rows[k]))]
                                    IN Obs("mean", E.pow # <<>> /\ (\E k \in DOMAIN M : LLe(M[k], LAdd(E.pow, LOne))) /\ (\E k \in DOMAIN M : LLe(E.pow, LAdd(M[k], LOne))))

TraceInit == l = 1 /\ diag = {} /\ bits = 1
TraceNext == l <= TraceLen /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == diag = {}
=============================================================================
