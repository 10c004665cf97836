----------------------------- MODULE GrowthProof ------------------------------
(* Proof, with TLAPS, that the error grows at most linearly, for all bounds. *)
EXTENDS GrowthLoop, TLAPS
Inv == e \in Int /\ k \in Nat /\ Linear
LEMMA Times == ASSUME NEW a \in Nat, NEW b \in Nat PROVE (a + b) * D = a * D + b * D /\ a * D \in Nat
  BY Bounds
LEMMA One == 1 * D = D /\ 2 * D = D + D
  BY Bounds
LEMMA Step == ASSUME Inv, NEW n \in Nat, NEW x \in Int, NEW d \in Int,
                     (0 - (F + k * D)) <= x, x <= F + k * D, 0 - n * D <= d, d <= n * D, e' = x + d, k' = k + n
              PROVE Inv'
<1>1. (k + n) * D = k * D + n * D /\ k * D \in Nat /\ n * D \in Nat
  BY Times, Bounds DEF Inv
<1> DEFINE kd == k * D
           nd == n * D
<1>2. kd \in Nat /\ nd \in Nat /\ (k + n) * D = kd + nd /\ (0 - (F + kd)) <= x /\ x <= F + kd /\ 0 - nd <= d /\ d <= nd
  BY <1>1
<1> HIDE DEF kd, nd
<1>3. (0 - (F + (kd + nd))) <= x + d /\ x + d <= F + (kd + nd)
  BY <1>2, Bounds
<1> QED BY <1>2, <1>3 DEF Inv, Linear
LEMMA Fresh == ASSUME Inv, NEW f \in Within(F) PROVE f \in Int /\ (0 - (F + k * D)) <= f /\ f <= F + k * D
<1>1. k * D \in Nat
  BY Bounds DEF Inv
<1> QED BY <1>1, Bounds DEF Within
THEOREM Spec => []Linear
<1>1. Init => Inv
  BY Bounds DEF Init, Inv, Linear, Within
<1>2. ASSUME Inv, [Next]_vars PROVE Inv'
  <2>0. e \in Int /\ (0 - (F + k * D)) <= e /\ e <= F + k * D
    BY <1>2 DEF Inv, Linear
  <2>1. CASE UNCHANGED vars
    BY <1>2, <2>1 DEF Inv, Linear, vars
  <2>2. CASE Read1
    <3>1. PICK d \in Within(D) : e' = e + d /\ k' = k + 1
      BY <2>2 DEF Read1
    <3>2. d \in Int /\ 0 - 1 * D <= d /\ d <= 1 * D
      BY One, Bounds DEF Within
    <3> QED BY <1>2, <2>0, <3>1, <3>2, Step
  <2>3. CASE Write1
    <3>1. PICK d \in Within(D), f \in Within(F) : e' = f + d /\ k' = k + 1
      BY <2>3 DEF Write1
    <3>2. d \in Int /\ 0 - 1 * D <= d /\ d <= 1 * D
      BY One, Bounds DEF Within
    <3> QED BY <1>2, <3>1, <3>2, Step, Fresh
  <2>4. CASE Multi
    <3>1. PICK m \in Sizes, w \in {0, 1} : \E d \in Within((m + w) * D), f \in Within(F) : e' = ((1 - m - w) * e + (m * e + w * f)) + d /\ k' = k + m + w
      BY <2>4 DEF Multi
    <3>2. PICK d \in Within((m + w) * D), f \in Within(F) : e' = ((1 - m - w) * e + (m * e + w * f)) + d /\ k' = k + m + w
      BY <3>1
    <3>3. m \in Nat /\ w \in Nat /\ m + w \in Nat /\ k + m + w = k + (m + w)
      BY <1>2, Bounds DEF Inv
    <3>4. (m + w) * D \in Nat /\ f \in Int
      BY <3>3, Bounds DEF Within
    <3>5. d \in Int /\ 0 - (m + w) * D <= d /\ d <= (m + w) * D
      BY <3>4 DEF Within
    <3>6. (1 - m - w) * e + (m * e + w * f) = IF w = 1 THEN f ELSE e
      <4>1. CASE w = 0
        BY <4>1, <3>3, <3>4, <2>0
      <4>2. CASE w = 1
        <5>1. (1 - m - 1) * e = 0 - m * e
          BY <3>3, <2>0
        <5> QED BY <4>2, <5>1, <3>3, <3>4, <2>0
      <4> QED BY <4>1, <4>2
    <3> DEFINE x == IF w = 1 THEN f ELSE e
    <3>7. x \in Int /\ (0 - (F + k * D)) <= x /\ x <= F + k * D
      BY <1>2, <2>0, Fresh
    <3>8. e' = x + d /\ k' = k + (m + w)
      BY <3>2, <3>3, <3>6
    <3> HIDE DEF x
    <3> QED BY <1>2, <3>3, <3>5, <3>7, <3>8, Step
  <2>5. CASE Batch
    <3>1. PICK d \in Within(D), g \in Within(D), f \in Within(F), w \in {0, 1} : e' = (IF w = 1 THEN f ELSE e) + d + g /\ k' = k + 2
      BY <2>5 DEF Batch
    <3> DEFINE x == IF w = 1 THEN f ELSE e
    <3>2. x \in Int /\ (0 - (F + k * D)) <= x /\ x <= F + k * D
      BY <1>2, <2>0, Fresh
    <3>3. d \in Int /\ g \in Int /\ d + g \in Int /\ 0 - 2 * D <= d + g /\ d + g <= 2 * D
      BY One, Bounds DEF Within
    <3>4. e' = x + (d + g)
      BY <3>1, <3>2, <3>3
    <3> HIDE DEF x
    <3> QED BY <1>2, <3>1, <3>2, <3>3, <3>4, Step
  <2> QED BY <1>2, <2>1, <2>2, <2>3, <2>4, <2>5 DEF Next
<1>3. Inv => Linear
  BY DEF Inv
<1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec
===============================================================================
