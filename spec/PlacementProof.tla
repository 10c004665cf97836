---------------------------- MODULE PlacementProof ----------------------------
(* Proof, with TLAPS, of the contract of PlacementLoop for all tables.       *)
EXTENDS PlacementLoop, TLAPS
LEMMA AssignInv == Inv /\ Assign => Inv'
<1> SUFFICES ASSUME Inv, Assign PROVE Inv'
  OBVIOUS
<1> USE Sizes
<1>1. k \in 1..N /\ k' = k + 1 /\ k' \in 1..(N + 1) /\ refused' \in BOOLEAN
  BY DEF Inv, Assign
<1>2. PICK a \in 1..H : /\ Row(k, a) \notin rows
                        /\ rows' = rows \cup {Row(k, a)}
                        /\ cell' = [q \in 1..k |-> IF q = k THEN Table[Wanted[k]][a] ELSE cell[q]]
  BY DEF Assign
<1>3. \A q \in 1..N : q < k + 1 <=> q < k \/ q = k
  BY <1>1
<1>4. \A q \in 1..N : q < k => q \in 1..k /\ q # k
  BY <1>1
<1>5. cell'[k] = Table[Wanted[k]][a] /\ \A q \in 1..N : q < k => cell'[q] = cell[q]
  BY <1>1, <1>2, <1>4
<1>6. cell'[k][1] = Row(k, a)
  BY <1>5 DEF Row
<1>7. \A q \in 1..N : q < k + 1 => \E x \in 1..H : cell'[q] = Table[Wanted[q]][x]
  BY <1>3, <1>5 DEF Inv
<1>8. \A q \in 1..N : q < k + 1 => cell'[q][1] \in rows'
  BY <1>2, <1>3, <1>5, <1>6 DEF Inv
<1>9. \A q, p \in 1..N : q < k + 1 /\ p < k + 1 /\ q # p => cell'[q][1] # cell'[p][1]
  BY <1>2, <1>3, <1>5, <1>6 DEF Inv
<1> QED BY <1>1, <1>7, <1>8, <1>9 DEF Inv
THEOREM Spec => []Contract
<1>1. Init => Inv
  BY Sizes DEF Init, Inv
<1>2. Inv /\ [Next]_vars => Inv'
  <2>1. CASE UNCHANGED vars
    BY <2>1 DEF Inv, vars
  <2>2. CASE Refuse
    BY <2>2 DEF Inv, Refuse
  <2> QED BY <2>1, <2>2, AssignInv DEF Next
<1>3. Inv => Contract
  BY Sizes DEF Inv, Contract
<1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec
=============================================================================
