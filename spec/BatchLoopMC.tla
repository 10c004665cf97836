----------------------------- MODULE BatchLoopMC -----------------------------
(* BatchLoop for two items with two replicas each.                           *)
EXTENDS BatchLoop
TheCells == {1, 2} \X {1, 2}
ThePlace == [i \in {1, 2} |-> [a \in {1, 2} |-> <<i, a>>]]
=============================================================================
