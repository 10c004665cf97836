----------------------------- MODULE ViewTrace ------------------------------
(* What a server saw in a recorded run: judged against View.                 *)
(* State: the masks seen so far, the first query seen for each kind of       *)
(* client, and the queries prepared.                                         *)
EXTENDS View, TraceBase
VARIABLES l, diag, cf, used, first
tvars == <<l, diag, cf, used, first>>
E == Trace[l]
OK == E.out = "ok"
\* a ciphertext: <<mask, bits set somewhere, bits set everywhere, distinct coefficients, coefficients, error limbs,
\*                 mask coefficients seen before (up to sign), coefficients with an error, errors (up to sign)>>
FullMask(x) == x[2] = 64 /\ x[3] = 0 /\ x[4] = x[5] /\ x[5] = cf.n
NoNoise(x) == x[6] = <<0, 0, 0, 0>>
\* the noise is in every coefficient, but for a chance of one in a thousand
Sparse(x) == 2 * x[8] < x[5]
RECURSIVE Cat(_, _, _)
Cat(qs, i, k) == IF k > Len(qs) THEN <<>> ELSE [j \in DOMAIN qs[k].cts |-> qs[k].cts[j][i]] \o Cat(qs, i, k + 1)
Step ==
  CASE E.ev = "new" -> /\ cf' = [rows |-> E.rows, cols |-> E.cols, n |-> E.n] /\ used' = {} /\ first' = <<>>
                       /\ diag' = Obs("setup", OK)
    [] E.ev = "prep" ->
         IF ~OK THEN UNCHANGED <<cf, used, first>> /\ diag' = {}
         ELSE LET ms == Cat(E.ct, 1, 1)
                  es == Cat(E.ct, 9, 1)
                  key == <<E.crows, E.ccols>>
                  ref == IF key \in DOMAIN first THEN first[key] ELSE E.ct[1]
              IN /\ used' = used \cup Range(ms) \cup Range(es)
                 /\ first' = [x \in DOMAIN first \cup {key} |-> IF x = key THEN [shape |-> ref.shape, cts |-> ref.cts] ELSE first[x]]
                 /\ cf' = cf
                 /\ diag' = Obs("query-per-row", Len(E.ct) = (IF E.kind = "one" THEN 1 ELSE E.crows))
                            \cup Obs("shape", \A k \in DOMAIN E.ct : SameShape(E.ct[k], ref))
                            \cup Obs("mask-shared", FreshMasks(ms, used))
                            \cup Obs("mask-related", \A k \in DOMAIN E.ct : \A j \in DOMAIN E.ct[k].cts : E.ct[k].cts[j][7] = 0)
                            \cup Obs("noise-shared", FreshMasks(es, used))
                            \cup Obs("noise-sparse", \A k \in DOMAIN E.ct : \A j \in DOMAIN E.ct[k].cts : ~Sparse(E.ct[k].cts[j]))
                            \cup Obs("mask-full", \A k \in DOMAIN E.ct : \A j \in DOMAIN E.ct[k].cts : FullMask(E.ct[k].cts[j]))
                            \cup Obs("no-noise", \A k \in DOMAIN E.ct : \A j \in DOMAIN E.ct[k].cts : ~NoNoise(E.ct[k].cts[j]))
    [] E.ev \in {"one", "multi", "batch"} ->
         /\ UNCHANGED <<cf, used, first>>
         /\ diag' = IF ~OK THEN {"refused"}
            ELSE Obs("rewritten", \A c \in Covered(E.ev, cf.rows, cf.cols, E.nq) : E.touch[c[1]][c[2]])
    [] OTHER -> UNCHANGED <<cf, used, first>> /\ diag' = {}
TraceInit == l = 1 /\ diag = {} /\ cf = [rows |-> 0] /\ used = {} /\ first = <<>>
TraceNext == l <= TraceLen /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == diag = {}
=============================================================================
