------------------------------- MODULE Demux -------------------------------
(* Encrypted index selection: src/decision_tree.rs bit_decomposed_rgsw,      *)
(* demux_rec.  The selection bits are the complement of the index bits, most *)
(* significant first; every level splits the payload into bit*b and b-bit*b. *)
EXTENDS Integers, Sequences

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
\* floor(log2 c): the number of selection bits sent for c columns
RECURSIVE Log2(_)
Log2(c) == IF c <= 1 THEN 0 ELSE 1 + Log2(c \div 2)

IndexBit(i, k) == (i \div Pow2(k)) % 2
\* the selection bits a client sends for index i (0-based) among c columns
EncBits(i, c) == LET n == Log2(c) IN
                 [l \in 1..n |-> 1 - IndexBit(i, n - l)]

RECURSIVE DemuxFrom(_, _, _)
DemuxFrom(l, b, bits) ==
  LET left  == bits[l] * b
      right == b - left
  IN IF l = Len(bits) THEN <<left, right>>
     ELSE DemuxFrom(l + 1, left, bits) \o DemuxFrom(l + 1, right, bits)

\* the selector sequence: 2^n scalars, 1 at the addressed position
Selectors(bits) == DemuxFrom(1, 1, bits)
OneHot(i, c) == [j \in 1..c |-> IF j = i + 1 THEN 1 ELSE 0]
=============================================================================
