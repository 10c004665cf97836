------------------------------ MODULE DemuxProof ------------------------------
(* Proof, with TLAPS, that DemuxLoop is one-hot for all widths and indices. *)
EXTENDS DemuxLoop, TLAPS
LEMMA Halves == \A j \in Nat : j \div 2 \in Nat /\ (j % 2 = 0 => j = 2 * (j \div 2)) /\ (j % 2 # 0 => j = 2 * (j \div 2) + 1)
  OBVIOUS
THEOREM Spec => []OneHot
<1>1. Init => OneHot
  BY DEF Init, OneHot
<1>2. OneHot /\ [Next]_vars => OneHot'
  <2>1. CASE UNCHANGED vars
    BY <2>1 DEF OneHot, vars
  <2>2. ASSUME OneHot, NEW b \in {0, 1}, Split(b) PROVE OneHot'
    <3>1. width' \in Nat \ {0} /\ addr' \in 0..(width' - 1)
      BY <2>2 DEF OneHot, Split
    <3>2. ASSUME NEW j \in 0..(2 * width - 1)
          PROVE (IF j % 2 = 0 THEN b * sel[j \div 2] ELSE sel[j \div 2] - b * sel[j \div 2]) = (IF j = 2 * addr + (1 - b) THEN 1 ELSE 0)
      <4>1. j \div 2 \in 0..(width - 1)
        BY <2>2, <3>2, Halves DEF OneHot
      <4>2. sel[j \div 2] = IF j \div 2 = addr THEN 1 ELSE 0
        BY <2>2, <4>1 DEF OneHot
      <4>3. CASE b = 0
        BY <4>2, <4>3, <2>2, <3>2, Halves DEF OneHot
      <4>4. CASE b = 1
        BY <4>2, <4>4, <2>2, <3>2, Halves DEF OneHot
      <4> QED BY <4>3, <4>4
    <3>3. sel' = [j \in 0..(width' - 1) |-> IF j = addr' THEN 1 ELSE 0]
      BY <2>2, <3>2 DEF Split
    <3> QED BY <3>1, <3>3 DEF OneHot
  <2> QED BY <2>1, <2>2 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec
=============================================================================
