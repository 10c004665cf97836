------------------------------- MODULE ZtVec -------------------------------
(* Vectors over Z_t.  A stored item is a polynomial with coefficients in     *)
(* Z_t, i.e. a vector; everything the ORAM server does to items is linear    *)
(* selection, so additions, subtractions and scaling by 0/1 selectors are    *)
(* all the algebra the protocol needs.                                       *)
EXTENDS Integers, Sequences

VZero(w) == [k \in 1..w |-> 0]
VAdd(t, x, y) == [k \in DOMAIN x |-> (x[k] + y[k]) % t]
VSub(t, x, y) == [k \in DOMAIN x |-> (x[k] - y[k]) % t]
\* s is a small integer selector (0/1 in every reachable state of the contract)
VScale(t, s, x) == IF s = 1 THEN x ELSE IF s = 0 THEN [k \in DOMAIN x |-> 0]
                   ELSE [k \in DOMAIN x |-> (s * x[k]) % t]

RECURSIVE VSum(_, _, _)
VSum(t, w, xs) == IF xs = <<>> THEN VZero(w)
                  ELSE VAdd(t, Head(xs), VSum(t, w, Tail(xs)))
RECURSIVE ISum(_)
ISum(xs) == IF xs = <<>> THEN 0 ELSE Head(xs) + ISum(Tail(xs))
=============================================================================
