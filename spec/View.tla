-------------------------------- MODULE View --------------------------------
(* What the server sees: the ciphertexts of every request, and which stored  *)
(* cells it rewrites.  A ciphertext is seen as its mask; a query as its      *)
(* shape and its ciphertexts.                                                *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}
\* the shape of a query is the same whatever it does
SameShape(a, b) == a.shape = b.shape /\ Len(a.cts) = Len(b.cts)
\* no mask is used again, neither within the query nor by an earlier one
FreshMasks(masks, used) == Cardinality(Range(masks)) = Len(masks) /\ Range(masks) \cap used = {}
\* which cells a request covers: all cells of its rows
Covered(kind, rows, cols, n) == CASE kind = "batch" -> {<<r, c>> : r \in 1..rows, c \in 1..cols}
                                  [] n = 0 -> {}
                                  [] OTHER -> {<<1, c>> : c \in 1..cols}
=============================================================================
