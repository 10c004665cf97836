------------------------------- MODULE DemuxLoop ------------------------------
(* Index selection for any number of selection bits (proof: DemuxProof).     *)
(* A level splits every leaf x into bit * x and x - bit * x: a state machine *)
(* which takes one more bit per step, so that a proof by invariance covers   *)
(* all widths and all indices.                                               *)
EXTENDS Integers
VARIABLES width, sel, addr
vars == <<width, sel, addr>>
Init == width = 1 /\ sel = [j \in {0} |-> 1] /\ addr = 0
Split(b) ==
  /\ width' = 2 * width
  /\ sel' = [j \in 0..(2 * width - 1) |-> IF j % 2 = 0 THEN b * sel[j \div 2] ELSE sel[j \div 2] - b * sel[j \div 2]]
  \* a selection bit is the complement of the index bit
  /\ addr' = 2 * addr + (1 - b)
Next == \E b \in {0, 1} : Split(b)
Spec == Init /\ [][Next]_vars
OneHot ==
  /\ width \in Nat \ {0}
  /\ addr \in 0..(width - 1)
  /\ sel = [j \in 0..(width - 1) |-> IF j = addr THEN 1 ELSE 0]
\* expected to fail: 64 positions are reached
NeverDone == width < 64
Small == width < 256
===============================================================================
