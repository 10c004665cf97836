----------------------------- MODULE ParamSpace -----------------------------
(* Which parameter sets are valid: those whose worst expected error, carried *)
(* through the protocol step by step, stays below the decryption margin.     *)
(* All quantities are base-two logarithms in half bits.  A decomposition is  *)
(* <<base log, levels>>; selection, key switching and key negation each have *)
(* their own.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE CeilLog(_)
CeilLog(x) == IF x <= 1 THEN 0 ELSE 1 + CeilLog((x + 1) \div 2)
Max2(a, b) == IF a > b THEN a ELSE b
\* k = log2 of the ring size, sg = log2 of the fresh error (64 + standard deviation)
\* the fresh error of the gadget times the digits, and what the floating-point transform loses
Fresh(d, k, sg) == 2 * (d[1] - 1) + 2 * Max2(sg, 11) + k + CeilLog(2 * d[2]) + 4
\* what the decomposition rounds away
Rounding(d, k) == 2 * (64 - d[1] * d[2] - 1) + k
Product(d, k, sg) == Max2(Fresh(d, k, sg), Rounding(d, k)) + 2
\* a gadget ciphertext with error e, used as the selector of a product
Amplify(e, d, k) == e + 2 * (d[1] - 1) + k + CeilLog(2 * d[2]) + 2
\* rows of the selector: the error of the decomposed ciphertext times the key, and the product with the encrypted key
Expanded(e, neg, k, sg) == Max2(Max2(Fresh(neg, k, sg), Rounding(neg, k) + k), e + k) + 2
Margin(lt) == 2 * (64 - lt - 1)

\* p = [k, sg, lt, sel, ks, neg]; an array of `cols` columns after `acc` accesses
OramError(p, cols, acc) ==
  LET dem == Product(p.sel, p.k, p.sg) + CeilLog(CeilLog(cols) + 1)
      l == Expanded(dem, p.neg, p.k, p.sg)
  IN Max2(Amplify(l, p.sel, p.k), Product(p.sel, p.k, p.sg)) + CeilLog(cols) + CeilLog(acc) + 6
OramValid(p, cols, acc) == OramError(p, cols, acc) + 6 <= Margin(p.lt)
                           /\ p.sel[1] * p.sel[2] <= 60 /\ p.neg[1] * p.neg[2] <= 60
\* a comparison, the trace with its key switches, expansion, and a path of `depth` selections
TreeError(p, depth) ==
  LET tr == Max2(2 * p.sg + 3 * p.k + 6, Product(p.ks, p.k, p.sg) + 2 * p.k)
      l == Expanded(tr, p.neg, p.k, p.sg)
  IN Max2(Amplify(l, p.sel, p.k), Product(p.sel, p.k, p.sg)) + 2 * CeilLog(depth) + 6
TreeValid(p, depth) == TreeError(p, depth) + 6 <= Margin(p.lt)
                       /\ p.sel[1] * p.sel[2] + p.k <= 63 /\ p.neg[1] * p.neg[2] <= 60 /\ p.ks[1] * p.ks[2] <= 60
=============================================================================
