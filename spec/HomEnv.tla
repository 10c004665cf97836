------------------------------- MODULE HomEnv -------------------------------
(* Programs over the homomorphic registers, generated by TLC's simulator     *)
(* from the contract itself: operations are drawn from a profile, a register *)
(* which has become junk is refreshed.                                       *)
EXTENDS HomReg, TLC, Json
CONSTANTS N, T, NegStd, Bl, Lv, Kbl, Klv, Nbl, Nlv, NR, NG, NL, Profile, Depth
VARIABLES hist
vars == <<hvars, hist>>

Some(S) == RandomElement(S)
RECURSIVE RandSeq(_, _)
RandSeq(k, S) == IF k = 0 THEN <<>> ELSE <<Some(S)>> \o RandSeq(k - 1, S)
RECURSIVE Sparse(_, _, _)
Sparse(k, p, S) == IF k = 0 THEN p ELSE Sparse(k - 1, [p EXCEPT ![Some(1..N)] = Some(S)], S)
\* a message: dense, sparse, extreme, a monomial
Message(dummy) ==
  LET w == Some(1..8)
  IN CASE w <= 3 -> RandSeq(N, 0..(T - 1))
       [] w = 4 -> Sparse(2, PZero(N), 0..(T - 1))
       [] w = 5 -> RandSeq(N, {0, T - 1})
       [] w = 6 -> RandSeq(N, {T \div 2, (T \div 2) - 1})
       [] OTHER -> Sparse(1, PZero(N), {1, T - 1, 1})
\* a small multiplier
Small(dummy) ==
  LET w == Some(1..6)
  IN CASE w = 1 -> Sparse(1, PZero(N), {1, -1})
       [] w = 2 -> Sparse(3, PZero(N), {1, -1, 2})
       [] w = 3 -> RandSeq(N, {-1, 0, 1})
       [] w = 4 -> Sparse(Some(1..2), PZero(N), {3, -5, 2, -3})
       [] w = 5 -> PConst(N, Some({1, 2, -1, 7}))
       [] OTHER -> RandSeq(N, {0, 1})
KswForms == <<"std", "fft", "gsw", "gswbuf">>
ExpForms == <<"std", "fft", "slow", "dec">>
KswForm(k) == KswForms[1 + (k % 4)]
ExpForm(k) == ExpForms[1 + (k % 4)]
GForms == <<"std", "std", "std", "ks", "neg">>
Emit(r) == hist' = Append(hist, r)

Ring == <<"enc", "encc", "triv", "clear", "copy", "fill", "add", "add", "sub", "sub", "addp", "subp", "addparts", "subparts", "mulp", "mulp", "mulp", "mdiv",
          "genc", "gencp", "gencp", "gvec", "gneg", "gadd", "ext", "ext", "ext", "cmux", "cmux", "cmux">>
       \o (IF T = 2 THEN <<"not", "not">> ELSE <<>>)
Keys == <<"enc", "enc1", "enc1", "triv", "add", "sub", "ksw", "ksw", "ksw", "ksw", "ksw", "subs", "subs", "subs", "subs", "subs", "trace", "trace", "mdiv", "mulp">>
Conv == <<"enc", "enc", "add", "sext", "sext", "sext", "sext", "sextc", "lconv", "lconv", "lconv", "lenc", "lenc", "lclear", "expand", "expand", "expand", "ext", "cmux", "triv">>
Ops == CASE Profile = "ring" -> Ring [] Profile = "key" -> Keys [] Profile = "conv" -> Conv

Step(op, d, a, b, g, ga, x, k, p, s, f) ==
  LET D == d - 1  AA == a - 1  BB == b - 1  GG == g - 1
      P(q) == [e |-> q]
  IN CASE op = "enc" -> Emit([c |-> "enc", d |-> D, p |-> P(p), key |-> 0]) /\ Enc(d, p, 0)
       [] op = "enc1" -> Emit([c |-> "enc", d |-> D, p |-> P(p), key |-> 1]) /\ Enc(d, p, 1)
       [] op = "encc" -> Emit([c |-> op, d |-> D, p |-> P(PConst(N, p[1]))]) /\ EncC(d, p[1])
       [] op = "triv" -> Emit([c |-> op, d |-> D, p |-> P(p)]) /\ Triv(d, p)
       [] op = "clear" -> Emit([c |-> op, d |-> D]) /\ Clear(d)
       [] op \in {"copy", "fill"} -> Emit([c |-> op, d |-> D, a |-> AA]) /\ Copy(d, a)
       [] op \in {"add", "addparts"} -> Emit([c |-> op, d |-> D, a |-> AA]) /\ Add(d, a)
       [] op \in {"sub", "subparts"} -> Emit([c |-> op, d |-> D, a |-> AA]) /\ Sub(d, a)
       [] op = "addp" -> Emit([c |-> op, d |-> D, p |-> P(p)]) /\ AddP(d, p)
       [] op = "subp" -> Emit([c |-> op, d |-> D, p |-> P(p)]) /\ SubP(d, p)
       [] op = "mulp" -> Emit([c |-> op, d |-> D, p |-> P(s), form |-> f]) /\ MulP(d, s)
       [] op = "mdiv" -> Emit([c |-> op, d |-> D, k |-> k]) /\ MDiv(d, k)
       [] op = "not" -> Emit([c |-> op, d |-> D, a |-> AA, form |-> f]) /\ Not(d, IF f = "std" THEN a ELSE d)
       [] op = "genc" -> Emit([c |-> op, g |-> GG, p |-> P(PConst(N, k % 2))]) /\ GEnc(g, PConst(N, k % 2), "std")
       [] op = "gencp" -> Emit([c |-> op, g |-> GG, p |-> P(s), form |-> GForms[1 + (k % 5)]]) /\ GEnc(g, s, GForms[1 + (k % 5)])
       [] op = "gvec" -> Emit([c |-> op, p |-> P(p)]) /\ GVec(p)
       [] op = "gneg" -> Emit([c |-> op, g |-> GG]) /\ GNeg(g)
       [] op = "gadd" -> IF Addable(g, ga) THEN Emit([c |-> op, g |-> GG, a |-> ga - 1]) /\ GAdd(g, ga)
                         ELSE Emit([c |-> "genc", g |-> GG, p |-> P(PConst(N, k % 2))]) /\ GEnc(g, PConst(N, k % 2), "std")
       [] op = "ext" -> Emit([c |-> op, d |-> D, g |-> GG, a |-> AA, form |-> f]) /\ Ext(d, g, a)
       [] op = "cmux" -> Emit([c |-> op, d |-> D, g |-> GG, a |-> AA, b |-> BB, form |-> f]) /\ CMux(d, g, a, b)
       [] op = "ksw" -> Emit([c |-> op, d |-> D, a |-> AA, form |-> KswForm(k)]) /\ Ksw(d, a)
       [] op = "subs" -> Emit([c |-> op, d |-> D, a |-> AA, k |-> 2 * k + 1, form |-> f]) /\ Subs(d, a, 2 * k + 1)
       [] op = "trace" -> Emit([c |-> op, d |-> D, a |-> AA, form |-> f]) /\ TraceOp(d, a)
       [] op = "lenc" -> Emit([c |-> op, l |-> x - 1, k |-> k % T]) /\ LEnc(x, k % T)
       [] op = "lclear" -> Emit([c |-> op, l |-> x - 1]) /\ LClear(x)
       [] op = "sext" -> Emit([c |-> op, l |-> x - 1, a |-> AA, k |-> k % N, form |-> "std"]) /\ SExt(x, a, k % N)
       [] op = "sextc" -> Emit([c |-> "sext", l |-> x - 1, a |-> AA, k |-> 0, form |-> "const"]) /\ SExt(x, a, 0)
       [] op = "lconv" -> Emit([c |-> op, d |-> D, l |-> x - 1]) /\ LConv(d, x)
       [] op = "expand" -> Emit([c |-> op, g |-> GG, bit |-> p[1] % 2, form |-> ExpForm(k)]) /\ GExpand(g, p[1] % 2)

\* junk, and nothing to see: both are refreshed before long
Bad == {i \in 1..NR : reg[i].keys = {} \/ reg[i].v = PZero(N)}
\* an operand under the key the operation expects, where there is one
Suit(op) == LET S == {i \in 1..NR : (IF op = "ksw" THEN 1 ELSE 0) \in reg[i].keys} IN IF S = {} THEN 1..NR ELSE S
Wide(op) == IF gad[1].b = 0 /\ op \in {"ext", "cmux"} THEN "gencp" ELSE op
\* a and b share a key
\* (TLC would draw constant bounds of an outermost quantifier once and for all)
Next ==
  /\ Len(hist) < Depth
  /\ \E w \in {Some(1..Len(Ops))}, d0 \in {Some(1..NR)}, g \in {Some(1..NG)}, ga \in {Some(1..NG)}, x \in {Some(1..NL)}, k \in {Some(0..(2 * N - 1))}, h \in {Some(1..4)}, fb \in {Some(1..2)} :
     \E d \in {IF Bad # {} /\ h > 1 THEN Some(Bad) ELSE d0} :
     \E op \in {IF Bad # {} /\ h > 1 THEN "enc" ELSE Wide(Ops[w])} :
     \E a \in {Some(Suit(op))}, b \in {Some(Suit(op))}, p \in {Message(hist)}, s \in {Small(hist)} :
     Step(op, d, a, b, g, ga, x, k, p, s, IF fb = 1 THEN "std" ELSE "buf")

Init ==
  /\ hist = <<>>
  /\ cf = [n |-> N, t |-> T, sk |-> [i \in 1..N |-> 1], std |-> 0 - NegStd, bl |-> Bl, lv |-> Lv, kbl |-> Kbl, klv |-> Klv, nbl |-> Nbl, nlv |-> Nlv]
  /\ reg = [i \in 1..NR |-> [v |-> PZero(N), keys |-> {0, 1}, b |-> 0, part |-> 0]]
  /\ gad = [i \in 1..NG |-> [m |-> PZero(N), b |-> 0, dec |-> <<Bl, Lv>>]]
  /\ lwe = [i \in 1..NL |-> [v |-> 0, b |-> 0, ok |-> 1]]
Spec == Init /\ [][Next]_vars
Printed == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
=============================================================================
