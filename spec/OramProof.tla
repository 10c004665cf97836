------------------------------- MODULE OramProof ------------------------------
(* Proof, with TLAPS, of the contract of OramLoop for all its constants.     *)
EXTENDS OramLoop, TLAPS
Types ==
  /\ old \in [Cols -> Int] /\ addr \in [Qs -> Cols] /\ wr \in [Qs -> {0, 1}] /\ data \in [Qs -> Int]
  /\ k \in 1..(K + 1) /\ j \in 0..C /\ acc \in Int /\ resp \in [Qs -> Int] /\ new \in [Cols -> Int]
  /\ k = K + 1 => j = 0
\* query q has passed column c
Past(q, c) == q < k \/ (q = k /\ c < j)
Inv ==
  /\ Types /\ Distinct
  /\ acc = IF k <= K /\ addr[k] < j THEN old[addr[k]] ELSE 0
  /\ \A q \in Qs : q < k => resp[q] = old[addr[q]]
  /\ \A c \in Cols : (\A q \in Qs : ~(Past(q, c) /\ wr[q] = 1 /\ addr[q] = c)) => new[c] = old[c]
  /\ \A c \in Cols : \A q \in Qs : (Past(q, c) /\ wr[q] = 1 /\ addr[q] = c) => new[c] = data[q]
LEMMA InitInv == Init => Inv
  BY Sizes DEF Init, Inv, Types, Past, Cols, Qs, Distinct
LEMMA ColumnInv == Inv /\ Column => Inv'
<1> SUFFICES ASSUME Inv, Column PROVE Inv'
  OBVIOUS
<1> USE Sizes
<1>0. k \in Qs /\ j \in Cols /\ addr[k] \in Cols /\ wr[k] \in {0, 1} /\ data[k] \in Int /\ old[j] \in Int /\ old[addr[k]] \in Int /\ j \in Int /\ acc \in Int
  BY DEF Inv, Types, Column, Cols, Qs
<1>a. L(k, j) \in {0, 1} /\ L(k, j) * old[j] = (IF addr[k] = j THEN old[j] ELSE 0)
  BY <1>0 DEF L
<1>b. wr[k] * (data[k] - old[j]) = (IF wr[k] = 1 THEN data[k] - old[j] ELSE 0)
  BY <1>0
<1>c. L(k, j) * (wr[k] * (data[k] - old[j])) = (IF addr[k] = j /\ wr[k] = 1 THEN data[k] - old[j] ELSE 0)
  BY <1>0, <1>b DEF L
<1>d. new \in [Cols -> Int] /\ new[j] \in Int
  BY <1>0 DEF Inv, Types
<1>e. new' = [new EXCEPT ![j] = new[j] + (IF addr[k] = j /\ wr[k] = 1 THEN data[k] - old[j] ELSE 0)]
  BY <1>c DEF Column
<1>f. acc' = acc + (IF addr[k] = j THEN old[j] ELSE 0)
  BY <1>a DEF Column
<1>1. Types' /\ Distinct'
  <2>1. new' \in [Cols -> Int] /\ acc' \in Int
    BY <1>0, <1>d, <1>e, <1>f
  <2>2. j' \in 0..C /\ k' = k /\ (k' = K + 1 => j' = 0)
    BY <1>0 DEF Inv, Types, Column, Cols, Qs
  <2> QED BY <2>1, <2>2 DEF Inv, Types, Column, Distinct
<1>2. (acc = IF k <= K /\ addr[k] < j THEN old[addr[k]] ELSE 0)'
  <2>1. acc = IF addr[k] < j THEN old[addr[k]] ELSE 0
    BY <1>0 DEF Inv, Column
  <2>2. addr[k] < j + 1 <=> addr[k] < j \/ addr[k] = j
    BY <1>0 DEF Cols
  <2>3. acc' = IF addr[k] < j + 1 THEN old[addr[k]] ELSE 0
    BY <1>0, <1>f, <2>1, <2>2 DEF Cols
  <2> QED BY <2>3 DEF Column
<1>3. (\A q \in Qs : q < k => resp[q] = old[addr[q]])'
  BY DEF Inv, Column
<1>4. ASSUME NEW c \in Cols, c # j PROVE new'[c] = new[c] /\ \A q \in Qs : Past(q, c)' <=> Past(q, c)
  <2>1. new'[c] = new[c]
    BY <1>d, <1>e, <1>4
  <2>2. c < j + 1 <=> c < j
    BY <1>0, <1>4 DEF Cols
  <2> QED BY <2>1, <2>2 DEF Column, Past
<1>5. \A c \in Cols : \A q \in Qs : c = j => (Past(q, c)' <=> (Past(q, c) \/ q = k))
  <2>1. j < j + 1 /\ ~(j < j)
    BY <1>0
  <2> QED BY <2>1 DEF Column, Past
<1>6. ~Past(k, j)
  BY <1>0 DEF Past, Cols, Qs
<1>7. new'[j] = new[j] + (IF addr[k] = j /\ wr[k] = 1 THEN data[k] - old[j] ELSE 0)
  BY <1>0, <1>d, <1>e
<1>8. CASE addr[k] = j /\ wr[k] = 1
  <2>1. \A q \in Qs : q # k => ~(wr[q] = 1 /\ addr[q] = j)
    BY <1>0, <1>8 DEF Inv, Distinct
  <2>2. new[j] = old[j]
    BY <1>0, <1>6, <2>1 DEF Inv
  <2>3. new'[j] = data[k]
    BY <1>0, <1>7, <1>8, <2>2
  <2>4. \A c \in Cols : (\A q \in Qs : ~(Past(q, c)' /\ wr[q] = 1 /\ addr[q] = c)) => new'[c] = old[c]
    <3>1. TAKE c \in Cols
    <3>2. CASE c = j BY <1>0, <1>5, <1>8, <2>3, <3>2 DEF Inv
    <3>3. CASE c # j BY <1>4, <3>3 DEF Inv
    <3> QED BY <3>2, <3>3
  <2>5. \A c \in Cols : \A q \in Qs : (Past(q, c)' /\ wr[q] = 1 /\ addr[q] = c) => new'[c] = data[q]
    <3>1. TAKE c \in Cols
    <3>2. CASE c = j BY <1>0, <1>5, <1>8, <2>1, <2>3, <3>2 DEF Inv
    <3>3. CASE c # j BY <1>4, <3>3 DEF Inv
    <3> QED BY <3>2, <3>3
  <2> QED BY <1>1, <1>2, <1>3, <2>4, <2>5 DEF Inv, Column
<1>9. CASE ~(addr[k] = j /\ wr[k] = 1)
  <2>1. new'[j] = new[j]
    BY <1>0, <1>d, <1>7, <1>9
  <2>4. \A c \in Cols : (\A q \in Qs : ~(Past(q, c)' /\ wr[q] = 1 /\ addr[q] = c)) => new'[c] = old[c]
    <3>1. TAKE c \in Cols
    <3>2. CASE c = j BY <1>0, <1>5, <1>9, <2>1, <3>2 DEF Inv
    <3>3. CASE c # j BY <1>4, <3>3 DEF Inv
    <3> QED BY <3>2, <3>3
  <2>5. \A c \in Cols : \A q \in Qs : (Past(q, c)' /\ wr[q] = 1 /\ addr[q] = c) => new'[c] = data[q]
    <3>1. TAKE c \in Cols
    <3>2. CASE c = j BY <1>0, <1>5, <1>9, <2>1, <3>2 DEF Inv
    <3>3. CASE c # j BY <1>4, <3>3 DEF Inv
    <3> QED BY <3>2, <3>3
  <2> QED BY <1>1, <1>2, <1>3, <2>4, <2>5 DEF Inv, Column
<1> QED BY <1>8, <1>9
LEMMA AnswerInv == Inv /\ Answer => Inv'
<1> SUFFICES ASSUME Inv, Answer PROVE Inv'
  OBVIOUS
<1> USE Sizes
<1>1. Types' /\ Distinct' /\ acc' = 0 /\ j' = 0
  BY DEF Inv, Types, Answer, Cols, Qs, Distinct
<1>2. (acc = IF k <= K /\ addr[k] < j THEN old[addr[k]] ELSE 0)'
  <2>1. CASE k + 1 <= K
    BY <1>1, <2>1 DEF Inv, Types, Answer, Cols, Qs
  <2>2. CASE ~(k + 1 <= K)
    BY <1>1, <2>2 DEF Inv, Types, Answer, Cols, Qs
  <2> QED BY <2>1, <2>2
<1>3. (\A q \in Qs : q < k => resp[q] = old[addr[q]])'
  BY DEF Inv, Types, Answer, Cols, Qs
<1>4. \A q \in Qs : \A c \in Cols : Past(q, c)' <=> Past(q, c)
  BY DEF Inv, Types, Answer, Past, Cols, Qs
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Inv, Answer
LEMMA InvContract == Inv => Contract
<1> SUFFICES ASSUME Inv, k = K + 1 PROVE Contract
  BY DEF Contract
<1>1. \A q \in Qs : \A c \in Cols : Past(q, c)
  BY Sizes DEF Inv, Types, Past, Qs
<1>2. \A q \in Qs : addr[q] \in Cols /\ q < k
  BY Sizes DEF Inv, Types, Qs
<1>3. \A q \in Qs : resp[q] = old[addr[q]]
  BY <1>2 DEF Inv
<1>4. \A q \in Qs : wr[q] = 1 => new[addr[q]] = data[q]
  BY <1>1, <1>2 DEF Inv
<1>5. \A c \in Cols : (\A q \in Qs : wr[q] = 1 => addr[q] # c) => new[c] = old[c]
  BY <1>1 DEF Inv
<1> QED BY <1>3, <1>4, <1>5 DEF Contract
THEOREM Spec => []Contract
<1>1. Inv /\ [Next]_vars => Inv'
  <2>1. CASE UNCHANGED vars
    <3>1. Types' <=> Types
      BY <2>1 DEF Types, vars
    <3>2. Distinct' <=> Distinct
      BY <2>1 DEF Distinct, vars
    <3>3. \A q, c : Past(q, c)' <=> Past(q, c)
      BY <2>1 DEF Past, vars
    <3> QED BY <2>1, <3>1, <3>2, <3>3 DEF Inv, vars
  <2> QED BY <2>1, ColumnInv, AnswerInv DEF Next
<1> QED BY <1>1, InitInv, InvContract, PTL DEF Spec
=============================================================================
