------------------------------ MODULE BatchProof ------------------------------
(* Proof, with TLAPS, of the contract of BatchLoop for all its constants.    *)
EXTENDS BatchLoop, TLAPS
Types ==
  /\ mem \in [Items -> Int] /\ old \in [Cells -> Int] /\ hit \in [Cells -> {0, 1}] /\ wr \in [Cells -> {0, 1}] /\ data \in [Cells -> Int]
  /\ k \in 1..(H + 2) /\ cnt \in [Items -> Int] /\ sum \in [Items -> Int]
Inv ==
  /\ Types /\ Agree(old, mem) /\ Once
  /\ k <= H + 1 => cells = AfterRows
  /\ k <= H + 1 => \A i \in Items :
       /\ (\A a \in R : ~(a < k /\ WrittenAt(i, a))) => cnt[i] = 0 /\ sum[i] = 0
       /\ \A a \in R : a < k /\ WrittenAt(i, a) => cnt[i] = 1 /\ sum[i] = data[Place[i][a]]
  /\ k = H + 2 => \A i \in Items : \A a \in R : Result(i, cells[Place[i][a]])
LEMMA InitInv == Init => Inv
  BY Sizes DEF Init, Inv, Types, R
LEMMA Placed == \A i \in Items : \A a \in R : Place[i][a] \in Cells
  BY Sizes DEF R
LEMMA ReplicaInv == Inv /\ Replica => Inv'
<1> SUFFICES ASSUME Inv, Replica PROVE Inv'
  OBVIOUS
<1> USE Sizes, Placed
<1>1. k \in R /\ k \in Int /\ k' = k + 1 /\ k' # H + 2 /\ k' <= H + 1 /\ k <= H + 1
  BY DEF Inv, Types, Replica, R
<1>2. cells = AfterRows /\ cells \in [Cells -> Int]
  BY <1>1 DEF Inv, Types, AfterRows
<1>3. \A i \in Items : S(i, k) = (IF WrittenAt(i, k) THEN 1 ELSE 0)
  BY <1>1 DEF Inv, Types, S, WrittenAt, Written
<1>4. \A i \in Items : S(i, k) * cells[Place[i][k]] = (IF WrittenAt(i, k) THEN data[Place[i][k]] ELSE 0)
  <2>1. TAKE i \in Items
  <2>2. Place[i][k] \in Cells /\ cells[Place[i][k]] \in Int
    BY <1>1, <1>2
  <2>3. WrittenAt(i, k) => cells[Place[i][k]] = data[Place[i][k]]
    BY <1>2, <2>2 DEF AfterRows, WrittenAt
  <2> QED BY <1>3, <2>2, <2>3
<1>5. \A i \in Items : data[Place[i][k]] \in Int /\ cnt[i] \in Int /\ sum[i] \in Int
  BY <1>1 DEF Inv, Types
<1>6. \A i \in Items : cnt'[i] = cnt[i] + (IF WrittenAt(i, k) THEN 1 ELSE 0) /\ sum'[i] = sum[i] + (IF WrittenAt(i, k) THEN data[Place[i][k]] ELSE 0)
  BY <1>3, <1>4 DEF Replica
<1>7. cnt' \in [Items -> Int] /\ sum' \in [Items -> Int]
  <2>1. \A i \in Items : cnt[i] + S(i, k) \in Int /\ sum[i] + S(i, k) * cells[Place[i][k]] \in Int
    BY <1>3, <1>4, <1>5
  <2> QED BY <2>1 DEF Replica
<1>8. Types' /\ Agree(old, mem)' /\ Once' /\ (cells = AfterRows)'
  BY <1>1, <1>2, <1>7 DEF Inv, Types, Replica, Agree, Once, Written, AfterRows
<1>9. ASSUME NEW i \in Items
      PROVE /\ (\A a \in R : ~(a < k + 1 /\ WrittenAt(i, a))) => cnt'[i] = 0 /\ sum'[i] = 0
            /\ \A a \in R : a < k + 1 /\ WrittenAt(i, a) => cnt'[i] = 1 /\ sum'[i] = data[Place[i][a]]
  <2>1. \A a \in R : a < k + 1 <=> a < k \/ a = k
    BY <1>1 DEF R
  <2>2. /\ (\A a \in R : ~(a < k /\ WrittenAt(i, a))) => cnt[i] = 0 /\ sum[i] = 0
        /\ \A a \in R : a < k /\ WrittenAt(i, a) => cnt[i] = 1 /\ sum[i] = data[Place[i][a]]
    BY <1>1 DEF Inv
  <2>3. ~(k < k)
    BY <1>1
  <2>4. \A a, b \in R : WrittenAt(i, a) /\ WrittenAt(i, b) => a = b
    BY DEF Inv, Once, WrittenAt
  <2>5. CASE WrittenAt(i, k)
    <3>1. cnt[i] = 0 /\ sum[i] = 0
      BY <1>1, <2>2, <2>3, <2>4, <2>5
    <3>2. cnt'[i] = 1 /\ sum'[i] = data[Place[i][k]]
      BY <1>5, <1>6, <2>5, <3>1
    <3> QED BY <1>1, <2>1, <2>4, <2>5, <3>2
  <2>6. CASE ~WrittenAt(i, k)
    <3>1. cnt'[i] = cnt[i] /\ sum'[i] = sum[i]
      BY <1>5, <1>6, <2>6
    <3> QED BY <2>1, <2>2, <2>6, <3>1
  <2> QED BY <2>5, <2>6
<1>10. \A i \in Items : \A a \in R : WrittenAt(i, a)' <=> WrittenAt(i, a)
  BY DEF WrittenAt, Written, Replica
<1> QED BY <1>1, <1>8, <1>9, <1>10 DEF Inv, Replica
LEMMA FinishInv == Inv /\ Finish => Inv'
<1> SUFFICES ASSUME Inv, Finish PROVE Inv'
  OBVIOUS
<1> USE Sizes, Placed
<1>1. k = H + 1 /\ k' = H + 2 /\ ~(k' <= H + 1) /\ k <= H + 1 /\ 1 \in R
  BY DEF Finish, R
<1>2. \A a \in R : a < k
  BY <1>1 DEF R
<1>3. cells = AfterRows /\ cells \in [Cells -> Int]
  BY <1>1 DEF Inv, Types, AfterRows
<1>4. ASSUME NEW i \in Items PROVE Result(i, Fix(i))
  <2>1. Place[i][1] \in Cells /\ cells[Place[i][1]] \in Int /\ cnt[i] \in Int /\ sum[i] \in Int
    BY <1>1, <1>3 DEF Inv, Types
  <2>2. CASE \E a \in R : WrittenAt(i, a)
    <3>1. PICK a \in R : WrittenAt(i, a)
      BY <2>2
    <3>2. cnt[i] = 1 /\ sum[i] = data[Place[i][a]]
      BY <1>1, <1>2, <3>1 DEF Inv
    <3>3. Fix(i) = data[Place[i][a]]
      BY <2>1, <3>2 DEF Fix
    <3>4. \A b \in R : WrittenAt(i, b) => b = a
      BY <3>1 DEF Inv, Once, WrittenAt
    <3> QED BY <3>1, <3>3, <3>4 DEF Result
  <2>3. CASE ~\E a \in R : WrittenAt(i, a)
    <3>1. cnt[i] = 0 /\ sum[i] = 0
      BY <1>1, <2>3 DEF Inv
    <3>2. Fix(i) = cells[Place[i][1]]
      BY <2>1, <3>1 DEF Fix
    <3>3. cells[Place[i][1]] = old[Place[i][1]]
      BY <1>1, <1>3, <2>1, <2>3 DEF AfterRows, WrittenAt
    <3>4. old[Place[i][1]] = mem[i]
      BY <1>1 DEF Inv, Agree
    <3> QED BY <2>3, <3>2, <3>3, <3>4 DEF Result
  <2> QED BY <2>2, <2>3
<1>5. \A i \in Items : \A a \in R : Owned(Place[i][a]) /\ Owner(Place[i][a]) = i
  BY DEF Owned, Owner, R
<1>6. \A i \in Items : \A a \in R : cells'[Place[i][a]] = Fix(i)
  BY <1>5 DEF Finish
<1>7. \A i \in Items, v \in Int : TRUE
  OBVIOUS
<1>8. mem' = mem /\ hit' = hit /\ wr' = wr /\ data' = data /\ old' = old /\ cnt' = cnt /\ sum' = sum
  BY DEF Finish
<1>9. \A i \in Items : \A a \in R : Result(i, cells[Place[i][a]])'
  <2>1. \A i \in Items : \A a \in R : Result(i, cells'[Place[i][a]])
    BY <1>4, <1>6
  <2> QED BY <1>8, <2>1 DEF Result, WrittenAt, Written
<1>10. Types' /\ Agree(old, mem)' /\ Once'
  BY <1>1, <1>8 DEF Inv, Types, Agree, Once, Written
<1> QED BY <1>1, <1>9, <1>10 DEF Inv
THEOREM Spec => []Contract
<1>1. Inv /\ [Next]_vars => Inv'
  <2>1. CASE UNCHANGED vars
    BY <2>1 DEF Inv, Types, Agree, Once, Written, WrittenAt, Result, AfterRows, vars
  <2> QED BY <2>1, ReplicaInv, FinishInv DEF Next
<1>2. Inv => Contract
  BY DEF Inv, Contract
<1> QED BY <1>1, <1>2, InitInv, PTL DEF Spec
=============================================================================
