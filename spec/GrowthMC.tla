------------------------------ MODULE GrowthMC ------------------------------
(* The error an item carries, exactly: what one access does to it, with      *)
(* every choice of the errors the access itself adds (each between -D and D).*)
(* e: the item's error; F: the error of a fresh encryption.  A request of    *)
(* several queries computes  item - sum(L) item + sum(L t),  where every     *)
(* read contributes the item itself as t: the item's own error cancels.      *)
(* Batches copy one replica's combined value over all of them.               *)
(* Variants: a request that adds each read's t and removes the item once;    *)
(* an update whose error is multiplied; replicas averaged with both errors.  *)
EXTENDS Integers, Sequences
CONSTANTS D, F, MaxK, MaxQ, Variant
VARIABLES e, r, k
vars == <<e, r, k>>
Small == (0 - D)..D
Fresh == (0 - F)..F
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Init == e \in Fresh /\ r = e /\ k = 0
Read1 == \E d \in Small : e' = (IF Variant = "double" THEN 2 * e ELSE e) + d /\ k' = k + 1
Write1 == \E d \in Small, f \in {0 - F, F} : e' = f + d /\ k' = k + 1
Multi == \E m \in 0..MaxQ, w \in {0, 1} : \E d \in {0 - (m + w) * D, (m + w) * D} : \E f \in {0 - F, F} :
           /\ m + w > 0
           /\ e' = (IF Variant = "once" THEN e - (IF m + w > 0 THEN 1 ELSE 0) * e ELSE (1 - m - w) * e) + m * e + w * f + d
           /\ k' = k + m + w
\* a batch: the addressed replica is updated, then  first + sum of selected differences  is stored in all of them
Batch == \E d, g \in {0 - D, D} : \E f \in {0 - F, F} : \E wr \in BOOLEAN :
           LET a == IF wr THEN f + d ELSE e + d
           IN e' = (IF Variant = "both" THEN a + r + g ELSE IF wr THEN a + g ELSE e + d + g) /\ k' = k + 2
Next == k < MaxK /\ (Read1 \/ Write1 \/ Multi \/ Batch) /\ r' = e'
Spec == Init /\ [][Next]_vars
Linear == Abs(e) <= F + k * D
=============================================================================
