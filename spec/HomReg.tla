------------------------------- MODULE HomReg -------------------------------
(* The contract of the homomorphic operations: registers holding plaintext   *)
(* polynomials.  src/rlwe.rs, src/rgsw.rs, src/lwe.rs, src/decision_tree.rs. *)
(*                                                                           *)
(* A ring register holds a polynomial modulo (X^N+1, t), the set of secret   *)
(* keys under which it decrypts, and an upper bound (in bits) of its noise;  *)
(* a register whose noise bound reaches the decryption margin, or which was  *)
(* made from ciphertexts of different keys, is junk (keys = {}).  `part` = 1 *)
(* says that only the constant coefficient is specified.                     *)
EXTENDS Poly, Demux, FiniteSets
VARIABLES cf, reg, gad, lwe
hvars == <<cf, reg, gad, lwe>>

\* ---- noise bounds in bits -------------------------------------------------
Fresh == 64 + cf.std + 3
\* signed decomposition with base 2^bl, lv levels, of k ring elements, against gadget rows with gb bits of noise
SelNoise(gb, bl, lv, k) == Max(gb, 11) + bl - 1 + CLog2(k * lv * cf.n)
Rounding(bl, lv) == Max(63 - bl * lv, 0) + CLog2(cf.n + 1)
ExtNoise(gb, m, ab, bl, lv) ==
  Max(Max(SelNoise(gb, bl, lv, 2), Rounding(bl, lv) + CLog2(L1(m))), ab + CLog2(L1(m))) + 2
KswNoise == Max(SelNoise(Fresh, cf.kbl, cf.klv, 2), Rounding(cf.kbl, cf.klv)) + 2
TraceNoise(b) == Max(b, KswNoise) + CLog2(cf.n) + 1
ExpandNoise ==
  LET row == TraceNoise(Max(Fresh, KswNoise))
  IN Max(Max(row + CLog2(cf.n), SelNoise(Fresh, cf.nbl, cf.nlv, 2)), Rounding(cf.nbl, cf.nlv) + CLog2(cf.n)) + 2
Margin == 64 - CLog2(cf.t) - 2

Junk == [v |-> PZero(cf.n), keys |-> {}, b |-> 0, part |-> 0]
Reg(v, keys, b) == IF b > Margin THEN Junk ELSE [v |-> v, keys |-> keys, b |-> b, part |-> 0]
\* linear operations keep a partly specified value partly specified, everything else loses it
Both(x, y, v) ==
  IF x.keys \cap y.keys = {} THEN Junk
  ELSE LET r == Reg(v, x.keys \cap y.keys, Max(x.b, y.b) + 1) IN [r EXCEPT !.part = Max(x.part, y.part)]
Whole(x) == x.part = 0 /\ x.keys # {}
From(x, v, keys, b) == IF Whole(x) THEN Reg(v, keys, b) ELSE Junk

SetR(d, x) == reg' = [reg EXCEPT ![d] = x] /\ UNCHANGED <<cf, gad, lwe>>
\* the three decompositions a gadget ciphertext may have
Dec(form) == CASE form = "ks" -> <<cf.kbl, cf.klv>> [] form = "neg" -> <<cf.nbl, cf.nlv>> [] OTHER -> <<cf.bl, cf.lv>>
SetG(d, m, b, dec) == gad' = [gad EXCEPT ![d] = [m |-> m, b |-> b, dec |-> dec]] /\ UNCHANGED <<cf, reg, lwe>>
SetL(d, v, b) == lwe' = [lwe EXCEPT ![d] = [v |-> v, b |-> b, ok |-> IF b > Margin THEN 0 ELSE 1]] /\ UNCHANGED <<cf, reg, gad>>

\* ---- what is not accepted ---------------------------------------------------
Fits(p) == \A k \in DOMAIN p : p[k] \in 0..(cf.t - 1)
Ternary(p) == \A k \in DOMAIN p : p[k] \in {-1, 0, 1}

\* ---- operations (register numbers are 1-based here) -------------------------
Enc(d, p, key) == SetR(d, Reg(p, {key}, Fresh))
EncC(d, c) == SetR(d, Reg(PConst(cf.n, c % cf.t), {0}, Fresh))
Triv(d, p) == SetR(d, Reg(PMod(cf.t, p), {0, 1}, 0))
Clear(d) == SetR(d, Reg(PZero(cf.n), {0, 1}, 0))
Copy(d, a) == SetR(d, reg[a])
Add(d, a) == SetR(d, Both(reg[d], reg[a], PAdd(cf.t, reg[d].v, reg[a].v)))
Sub(d, a) == SetR(d, Both(reg[d], reg[a], PSub(cf.t, reg[d].v, reg[a].v)))
AddP(d, p) == SetR(d, [reg[d] EXCEPT !.v = PAdd(cf.t, @, PMod(cf.t, p))])
SubP(d, p) == SetR(d, [reg[d] EXCEPT !.v = PSub(cf.t, @, PMod(cf.t, p))])
MulP(d, p) == SetR(d, From(reg[d], PMul(cf.t, PMod(cf.t, p), reg[d].v), reg[d].keys, Max(reg[d].b, 12) + CLog2(L1(p)) + 1))
MDiv(d, k) == SetR(d, From(reg[d], PDiv(cf.t, reg[d].v, k), reg[d].keys, reg[d].b))
\* NOT of a bit in the constant coefficient (t = 2)
Not(d, a) == SetR(d, [reg[a] EXCEPT !.v = [@ EXCEPT ![1] = 1 - @]])
GEnc(g, m, form) == SetG(g, m, Fresh, Dec(form))
GVec(p) == /\ gad' = [g \in DOMAIN gad |-> [m |-> PConst(cf.n, p[g]), b |-> Fresh, dec |-> Dec("std")]]
           /\ UNCHANGED <<cf, reg, lwe>>
GNeg(g) == SetG(g, [k \in 1..cf.n |-> 0 - cf.sk[k]], Fresh, Dec("neg"))
\* gadget ciphertexts of different sizes do not add; of the same size but different bases they give nothing useful
Addable(g, a) == gad[g].dec[2] = gad[a].dec[2]
GAdd(g, a) == SetG(g, [k \in 1..cf.n |-> gad[g].m[k] + gad[a].m[k]], IF gad[g].dec = gad[a].dec THEN Max(gad[g].b, gad[a].b) + 1 ELSE 64, gad[g].dec)
GExpand(g, bit) == SetG(g, PConst(cf.n, bit), ExpandNoise, Dec("std"))

Product(g, x) == From(x, PMul(cf.t, PMod(cf.t, gad[g].m), x.v), x.keys \cap {0}, ExtNoise(gad[g].b, gad[g].m, x.b, gad[g].dec[1], gad[g].dec[2]))
Ext(d, g, a) == LET p == Product(g, reg[a]) IN SetR(d, Both(reg[d], p, PAdd(cf.t, reg[d].v, p.v)))
CMux(d, g, a, c) ==
  LET diff == Both(reg[c], reg[a], PSub(cf.t, reg[c].v, reg[a].v))
      p == Product(g, diff)
  IN SetR(d, Both(reg[a], p, PAdd(cf.t, reg[a].v, p.v)))

\* comparison of the exponent m of X^m with a threshold: only the constant coefficient is specified
Monomial(x) == \E m \in 0..(cf.n - 1) : x = PMono(cf.n, m, 1)
Degree(x) == CHOOSE m \in 0..(cf.n - 1) : x = PMono(cf.n, m, 1)
Compare(d, yes(_)) ==
  SetR(d, IF Whole(reg[d]) /\ Monomial(reg[d].v)
          THEN LET r == Reg(PConst(cf.n, IF yes(Degree(reg[d].v)) THEN 1 ELSE 0), reg[d].keys, Max(reg[d].b, 12) + CLog2(cf.n) + 1)
               IN [r EXCEPT !.part = IF r.keys = {} THEN 0 ELSE 1]
          ELSE Junk)
Leq(d, k) == LET Y(m) == m <= k IN Compare(d, Y)
Eq(d, k) == LET Y(m) == m = k IN Compare(d, Y)

Ksw(d, a) == SetR(d, From(reg[a], reg[a].v, IF 1 \in reg[a].keys THEN {0} ELSE {}, Max(reg[a].b, KswNoise) + 1))
Subs(d, a, k) == SetR(d, From(reg[a], PSubs(cf.t, reg[a].v, k), reg[a].keys \cap {0}, Max(reg[a].b, KswNoise) + 1))
TraceOp(d, a) == SetR(d, From(reg[a], PTrace(cf.t, reg[a].v), reg[a].keys \cap {0}, TraceNoise(reg[a].b)))

LEnc(l, v) == SetL(l, v, Fresh)
LClear(l) == SetL(l, 0, 0)
SExt(l, a, k) == IF 0 \in reg[a].keys /\ (reg[a].part = 0 \/ k = 0)
                 THEN SetL(l, reg[a].v[k + 1], reg[a].b)
                 ELSE SetL(l, 0, 64)
LConv(d, l) == SetR(d, IF lwe[l].ok = 1 THEN Reg(PConst(cf.n, lwe[l].v), {0}, Max(lwe[l].b, KswNoise + 1) + 1) ELSE Junk)

\* demultiplexing: one payload, one-hot by the selection bits
RECURSIVE DemuxNoise(_, _)
DemuxNoise(levels, b) == IF levels = 0 THEN b ELSE DemuxNoise(levels - 1, ExtNoise(Fresh, <<1>>, b, cf.bl, cf.lv) + 1)
DemuxOuts(bits, v) == LET s == Selectors(bits) IN [k \in DOMAIN s |-> PScale(cf.t, s[k], v)]
=============================================================================
