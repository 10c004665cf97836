------------------------------ MODULE GrowthLoop ------------------------------
(* The error an item carries after any number of requests of any size, with  *)
(* any errors within the bounds (proof: GrowthProof; small bounds: TLC).     *)
(* D: what one access adds at most; F: the error of a fresh encryption.      *)
(* As in GrowthMC, without its bounds on the history and the requests.       *)
EXTENDS Integers
CONSTANTS D, F, Sizes
ASSUME Bounds == D \in Nat /\ F \in Nat /\ Sizes \subseteq Nat
VARIABLES e, k
vars == <<e, k>>
Within(x) == (0 - x)..x
Init == e \in Within(F) /\ k = 0
Read1 == \E d \in Within(D) : e' = e + d /\ k' = k + 1
Write1 == \E d \in Within(D), f \in Within(F) : e' = f + d /\ k' = k + 1
\* m reads of the item and at most one write of it, in one request:  item - sum(L) item + sum(L t)
Multi == \E m \in Sizes, w \in {0, 1} :
           \E d \in Within((m + w) * D), f \in Within(F) : e' = ((1 - m - w) * e + (m * e + w * f)) + d /\ k' = k + m + w
\* the addressed replica is updated, then one combined value is stored in all of them
Batch == \E d \in Within(D), g \in Within(D), f \in Within(F), w \in {0, 1} : e' = (IF w = 1 THEN f ELSE e) + d + g /\ k' = k + 2
Next == Read1 \/ Write1 \/ Multi \/ Batch
Spec == Init /\ [][Next]_vars
Linear == (0 - (F + k * D)) <= e /\ e <= F + k * D
\* expected to fail: the bound is reached
NeverDone == k < 6 \/ e < F + k * D
Small == k < 8
===============================================================================
