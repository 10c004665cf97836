------------------------------ MODULE HomTrace ------------------------------
(* Is a recorded run of the real ring operations a behaviour of HomReg?      *)
(* After every operation all registers are shown decrypted, together with a  *)
(* fingerprint of the raw ciphertexts, so operands which are only read must  *)
(* be unchanged bit by bit.                                                  *)
EXTENDS HomReg, TraceBase
VARIABLES l, diag, raw
tvars == <<hvars, l, diag, raw>>
E == Trace[l]

D == E.d + 1   A == E.a + 1   B2 == E.b + 1   G == E.g + 1   LL == E.l + 1
Stay == UNCHANGED hvars

\* only the destination's ciphertext may differ from before
RawOK(e, rd, ld) ==
  /\ \A i \in DOMAIN e.raw : i # rd => e.raw[i] = raw.r[i]
  /\ \A i \in DOMAIN e.lraw : i # ld => e.lraw[i] = raw.l[i]
Shown(x, v) == IF x.part = 1 THEN v[1] = x.v[1] ELSE v = x.v
View(e) ==
  Obs("value", \A i \in DOMAIN reg' : 0 \in reg'[i].keys => Shown(reg'[i], e.v0[i]))
  \cup Obs("value-other-key", e.v1 # <<>> => \A i \in DOMAIN reg' : 1 \in reg'[i].keys => Shown(reg'[i], e.v1[i]))
  \cup Obs("selector", e.gv # <<>> => \A i \in DOMAIN gad' :
        (ExtNoise(gad'[i].b, gad'[i].m, 0, gad'[i].dec[1], gad'[i].dec[2]) <= Margin) => e.gv[i] = PMod(cf.t, gad'[i].m))
  \cup Obs("scalar", \A i \in DOMAIN lwe' : lwe'[i].ok = 1 => e.ls[i] = lwe'[i].v)

RingDest == {"enc", "encc", "triv", "clear", "copy", "fill", "add", "sub", "addp", "subp", "addparts", "subparts", "mulp", "mdiv", "not",
             "ext", "cmux", "leq", "eq", "ksw", "subs", "trace", "lconv"}
LweDest == {"lenc", "lclear", "sext"}
\* arguments for which the operation must refuse; otherwise it must not
Bad == CASE E.ev = "enc" -> ~Fits(E.p)
         [] E.ev = "tern" -> ~Ternary(E.p)
         [] E.ev \in {"leq", "eq"} -> E.k >= cf.n
         [] E.ev = "lenc" -> E.k >= cf.t
         [] E.ev = "subs" -> E.k % 2 = 0
         [] E.ev = "expand" -> E.bit > 1 /\ E.form # "dec"
         [] E.ev = "demux" -> E.nbits = 0
         [] OTHER -> FALSE

Bits == IF E.bits # <<>> THEN E.bits ELSE EncBits(E.k, E.width)
Payload == IF E.form = "unit" THEN PConst(cf.n, 1) ELSE reg[A].v
DemuxJudged == E.form = "unit" \/ (Whole(reg[A]) /\ 0 \in reg[A].keys)
DemuxSeen == Obs("width", Len(E.outs) = Pow2(Len(Bits)) /\ (E.bits = <<>> => E.nbits = Log2(E.width)))
             \cup Obs("one-hot", (DemuxJudged /\ DemuxNoise(Len(Bits), IF E.form = "unit" THEN 0 ELSE reg[A].b) <= Margin)
                                 => E.outs = DemuxOuts(Bits, Payload))

Do == CASE E.ev = "enc" -> Enc(D, E.p, E.key)
        [] E.ev = "encc" -> EncC(D, E.p[1])
        [] E.ev = "triv" -> Triv(D, E.p)
        [] E.ev = "clear" -> Clear(D)
        [] E.ev \in {"copy", "fill"} -> Copy(D, A)
        [] E.ev \in {"add", "addparts"} -> Add(D, A)
        [] E.ev \in {"sub", "subparts"} -> Sub(D, A)
        [] E.ev = "addp" -> AddP(D, E.p)
        [] E.ev = "subp" -> SubP(D, E.p)
        [] E.ev = "mulp" -> MulP(D, E.p)
        [] E.ev = "mdiv" -> MDiv(D, E.k)
        [] E.ev = "not" -> Not(D, IF E.form = "std" THEN A ELSE D)
        [] E.ev = "genc" -> GEnc(G, PConst(cf.n, E.p[1]), "std")
        [] E.ev = "gencp" -> GEnc(G, E.p, E.form)
        [] E.ev = "gvec" -> GVec(E.p)
        [] E.ev = "gneg" -> GNeg(G)
        [] E.ev = "gadd" -> GAdd(G, A)
        [] E.ev = "ext" -> Ext(D, G, A)
        [] E.ev = "cmux" -> CMux(D, G, A, B2)
        [] E.ev = "leq" -> Leq(D, E.k)
        [] E.ev = "eq" -> Eq(D, E.k)
        [] E.ev = "ksw" -> Ksw(D, A)
        [] E.ev = "subs" -> Subs(D, A, E.k)
        [] E.ev = "trace" -> TraceOp(D, A)
        [] E.ev = "lenc" -> LEnc(LL, E.k)
        [] E.ev = "lclear" -> LClear(LL)
        [] E.ev = "sext" -> SExt(LL, A, IF E.form = "std" THEN E.k ELSE 0)
        [] E.ev = "lconv" -> LConv(D, LL)
        [] E.ev = "expand" -> GExpand(G, E.bit)
        [] OTHER -> Stay

New ==
  /\ cf' = [n |-> E.n, t |-> E.t, sk |-> E.sk, std |-> E.std, bl |-> E.bl, lv |-> E.lv, kbl |-> E.kbl, klv |-> E.klv, nbl |-> E.nbl, nlv |-> E.nlv]
  /\ reg' = [i \in DOMAIN E.v0 |-> [v |-> PZero(E.n), keys |-> {0, 1}, b |-> 0, part |-> 0]]
  /\ gad' = [i \in 1..E.ng |-> [m |-> PZero(E.n), b |-> 0, dec |-> <<E.bl, E.lv>>]]
  /\ lwe' = [i \in DOMAIN E.ls |-> [v |-> 0, b |-> 0, ok |-> 1]]
  /\ raw' = [r |-> E.raw, l |-> E.lraw]
  /\ diag' = Obs("created", E.out = "ok")

TraceInit == l = 1 /\ diag = {} /\ raw = [r |-> <<>>, l |-> <<>>] /\ cf = [n |-> 1, t |-> 2] /\ reg = <<>> /\ gad = <<>> /\ lwe = <<>>
TraceNext ==
  /\ l <= TraceLen /\ l' = l + 1
  /\ IF E.ev = "new" THEN New
     ELSE IF E.out # "ok"
     THEN /\ Stay
          /\ raw' = raw
          /\ diag' = Obs(E.ev \o "-refused", E.out = "panic" /\ Bad)
                     \cup Obs("refused-changes", (E.out = "panic" /\ E.raw # <<>>) => RawOK(E, 0, 0))
     ELSE /\ Do
          /\ raw' = [r |-> E.raw, l |-> E.lraw]
          /\ diag' = Obs(E.ev \o "-accepted", ~Bad)
                     \cup (IF Bad THEN {} ELSE
                           View(E)
                           \cup Obs("operands", RawOK(E, IF E.ev \in RingDest THEN D ELSE 0, IF E.ev \in LweDest THEN LL ELSE 0))
                           \cup Obs("ternary", E.ev = "tern" => E.res = E.p)
                           \cup (IF E.ev = "demux" THEN DemuxSeen ELSE {}))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == diag = {}
=============================================================================
