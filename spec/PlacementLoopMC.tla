--------------------------- MODULE PlacementLoopMC ---------------------------
(* PlacementLoop for four items with two replicas each in three rows.        *)
EXTENDS PlacementLoop
TheTable == [i \in 1..4 |-> CASE i = 1 -> <<<<0, 0>>, <<1, 0>>>> [] i = 2 -> <<<<0, 1>>, <<2, 0>>>> [] i = 3 -> <<<<1, 1>>, <<0, 2>>>> [] OTHER -> <<<<2, 1>>, <<2, 2>>>>]
TheWanted == <<1, 2, 3>>
=============================================================================
