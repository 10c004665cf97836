------------------------------- MODULE HomImpl -------------------------------
(* How the ring operations are computed: ciphertexts (a, b) over Z_q with    *)
(* phase b - a s, signed gadget decomposition, external products, key        *)
(* switching, substitution, trace, extraction, packing and expansion, as in  *)
(* src/rgsw.rs, src/rlwe.rs and src/lwe.rs.  Encryptions carry no noise (the *)
(* random masks matter, the noise does not); the only error left is the      *)
(* rounding of the decomposition.  Mut names a seeded mistake, "" is none.   *)
EXTENDS Poly, TLC
CONSTANTS N, QB, T, Bl, Lv, Mut
Pow(k) == LET RECURSIVE P(_) P(i) == IF i = 0 THEN 1 ELSE 2 * P(i - 1) IN P(k)
Q == Pow(QB)
B == Pow(Bl)
Delta == Q \div T
LogN == CLog2(N)

Mask(seed, i) == [k \in 1..N |-> (((seed * 7919 + i * 5927 + k * 611 + 12345) % 4093) * 31) % Q]
Ct(a, b) == [a |-> TLCEval(a), b |-> TLCEval(b)]
Phase(s, c) == PSub(Q, c.b, PMul(Q, c.a, s))
\* encryption of an encoded polynomial under s with the mask numbered (seed, i)
EncAt(s, m, seed, i) == LET a == Mask(seed, i) IN Ct(a, PAdd(Q, PMul(Q, a, s), PMod(Q, m)))
Encode(m) == PScale(Q, Delta, m)
Decode(x) == [k \in DOMAIN x |-> ((x[k] + Delta \div 2) \div Delta) % T]
Dec(s, c) == Decode(Phase(s, c))

CAdd(x, y) == Ct(PAdd(Q, x.a, y.a), PAdd(Q, x.b, y.b))
CSub(x, y) == Ct(PSub(Q, x.a, y.a), PSub(Q, x.b, y.b))
CMul(x, p) == Ct(PMul(Q, x.a, p), PMul(Q, x.b, p))
CZero == Ct(PZero(N), PZero(N))

\* ---- signed decomposition: sum_j digit_j q/B^j, rounded to lv digits, least significant digit first
Closest(x) == LET u == Pow(QB - Bl * Lv) IN ((x + u \div 2) \div u) % Pow(Bl * Lv)
RECURSIVE Digits(_, _)
Digits(x, j) ==
  IF j = 0 THEN <<>>
  ELSE LET low == x % B
           d == IF low >= B \div 2 THEN low - B ELSE low
       IN <<d>> \o Digits(((x - d) \div B) % Pow(Bl * j), j - 1)
\* term number j (1 = most significant) of a polynomial
Terms(p) == LET ds == TLCEval([k \in 1..N |-> Digits(Closest(p[k]), Lv)]) IN TLCEval([j \in 1..Lv |-> [k \in 1..N |-> ds[k][Lv - j + 1]]])
Level(j) == Pow(QB - Bl * j)

\* ---- gadget ciphertexts and the external product
\* rows 2j-1: message on the mask, rows 2j: message on the body (j = 1..Lv)
Gsw(s, m, seed) ==
  TLCEval([i \in 1..(2 * Lv) |->
     LET j == (i + 1) \div 2
         z == EncAt(s, PZero(N), seed, 100 + i)
         add == PScale(Q, Level(j), m)
     IN IF i % 2 = 1 THEN Ct(PAdd(Q, z.a, add), z.b) ELSE Ct(z.a, PAdd(Q, z.b, add))])
RECURSIVE ExtFrom(_, _, _, _)
ExtFrom(g, ta, tb, j) ==
  IF j > Lv THEN CZero
  ELSE CAdd(CAdd(CMul(g[2 * j - 1], ta[j]), CMul(g[2 * j], tb[j])), ExtFrom(g, ta, tb, j + 1))
ExtProd(g, c) == ExtFrom(g, Terms(c.a), Terms(c.b), 1)
CMux(g, c0, c1) == CAdd(c0, ExtProd(g, CSub(c1, c0)))

\* ---- key switching from sb to sa
Ksk(sb, sa, seed) == TLCEval([j \in 1..Lv |-> EncAt(sa, PScale(Q, Level(IF Mut = "level" THEN Max(1, j - 1) ELSE j), sb), seed, 200 + j)])
RECURSIVE KsFrom(_, _, _)
KsFrom(k, ts, j) == IF j > Lv THEN CZero ELSE CAdd(CMul(k[j], ts[j]), KsFrom(k, ts, j + 1))
KeySwitch(k, c) ==
  LET t0 == Terms(c.a)
      ts == IF Mut = "order" THEN [j \in 1..Lv |-> t0[Lv - j + 1]] ELSE IF Mut = "odd" /\ Lv % 2 = 1 THEN [t0 EXCEPT ![1] = PZero(N)] ELSE t0
  IN CSub(Ct(PZero(N), c.b), KsFrom(k, ts, 1))
KskAsGsw(k) ==
  [i \in 1..(2 * Lv) |-> LET j == (i + 1) \div 2
                         IN IF i % 2 = 1 THEN CSub(CZero, k[j]) ELSE Ct(PZero(N), PConst(N, Level(j)))]

\* ---- x -> x^e by moving coefficients one at a time
RECURSIVE Move(_, _, _, _)
Move(x, e, i, out) ==
  IF i = N THEN out
  ELSE LET j == (i * e) % N
           neg == IF Mut = "sign" THEN FALSE ELSE ((i * e) \div N) % 2 = 1
       IN Move(x, e, i + 1, [out EXCEPT ![j + 1] = (IF neg THEN 0 - x[i + 1] ELSE x[i + 1]) % Q])
EvalXk(x, e) == Move(x, e, 1, PConst(N, x[1]))
SubsKey(s, e, seed) == Ksk([k \in 1..N |-> EvalXk(s, e)[k]], s, seed + e)
SubsCt(s, e, c, seed) == KeySwitch(SubsKey(s, e, seed), Ct(EvalXk(c.a, e), EvalXk(c.b, e)))
RECURSIVE TraceFrom(_, _, _, _)
TraceFrom(s, c, seed, i) ==
  IF i > (IF Mut = "trace" THEN LogN - 1 ELSE LogN) THEN c
  ELSE TraceFrom(s, CAdd(c, SubsCt(s, (N \div Pow(i - 1)) + 1, c, seed)), seed, i + 1)
TraceCt(s, c, seed) == TraceFrom(s, c, seed, 1)

\* ---- scalars: sample extraction and packing
\* coefficient n of b - a s is b_n - sum_i s_i a'_i
Extract(c, n) == [m |-> [i \in 1..N |-> LET d == n - (i - 1) IN IF d >= 0 THEN c.a[d + 1] ELSE (IF Mut = "extract" THEN c.a[N + d + 1] ELSE (0 - c.a[N + d + 1]) % Q)],
                  b |-> c.b[n + 1]]
RECURSIVE Dot(_, _, _)
Dot(x, y, i) == IF i > N THEN 0 ELSE (x[i] * y[i] + Dot(x, y, i + 1)) % Q
LPhase(s, l) == (l.b - Dot(s, l.m, 1)) % Q
RECURSIVE PackFrom(_, _, _, _)
PackFrom(s, l, seed, i) ==
  IF i > N THEN Ct(PZero(N), PConst(N, l.b))
  ELSE LET ds == Digits(Closest(l.m[i]), Lv)
           RECURSIVE S(_)
           S(j) == IF j > Lv THEN CZero
                   ELSE CAdd(CMul(EncAt(s, PConst(N, s[i] * Level(j)), seed, 300 + 10 * i + j), PConst(N, ds[Lv - j + 1])), S(j + 1))
       IN CSub(PackFrom(s, l, seed, i + 1), S(1))
Pack(s, l, seed) == PackFrom(s, l, seed, 1)

\* ---- expansion of a decomposed bit to a gadget ciphertext
Expand(s, bit, junk, seed) ==
  LET neg == TLCEval(Gsw(s, [k \in 1..N |-> 0 - s[k]], seed + 5))
      cs == TLCEval([j \in 1..Lv |-> TraceCt(s, EncAt(s, [k \in 1..N |-> IF k = 1 THEN bit * Pow(QB - Bl * j - LogN) ELSE junk], seed, 400 + j), seed)])
  IN TLCEval([i \in 1..(2 * Lv) |-> LET j == (i + 1) \div 2 IN IF i % 2 = 1 THEN ExtProd(neg, cs[j]) ELSE cs[j]])

\* ---- comparison of an exponent with a threshold
LeqPoly(d) == [k \in 1..N |-> IF k = 1 THEN 1 ELSE IF k - 1 >= N - d + (IF Mut = "leq" THEN 1 ELSE 0) THEN -1 ELSE 0]
EqPoly(d) == IF d = 0 THEN PConst(N, 1) ELSE PMono(N, N - d, -1)
=============================================================================
