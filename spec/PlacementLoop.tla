----------------------------- MODULE PlacementLoop ----------------------------
(* The greedy assignment for any table and any number of requested items     *)
(* (proof: PlacementProof).  One item is assigned per step: to the first of its *)
(* replicas whose row is free, or the request is refused.                    *)
EXTENDS Integers
CONSTANTS Rows, Cols, Items, H, Table, N, Wanted
ASSUME Sizes ==
  /\ H \in Nat /\ N \in Nat /\ Table \in [Items -> [1..H -> Rows \X Cols]]
  /\ Wanted \in [1..N -> Items]
VARIABLES k, refused, rows, cell
vars == <<k, refused, rows, cell>>
\* rows: the rows taken so far; cell[q]: the cell of the q-th item
Row(q, a) == Table[Wanted[q]][a][1]
Init == k = 1 /\ refused = FALSE /\ rows = {} /\ cell = [q \in {} |-> 0]
Assign ==
  /\ k <= N /\ ~refused
  /\ \E a \in 1..H :
       /\ Row(k, a) \notin rows /\ \A b \in 1..H : b < a => Row(k, b) \in rows
       /\ rows' = rows \cup {Row(k, a)}
       /\ cell' = [q \in 1..k |-> IF q = k THEN Table[Wanted[k]][a] ELSE cell[q]]
  /\ k' = k + 1 /\ UNCHANGED refused
Refuse ==
  /\ k <= N /\ ~refused
  /\ \A a \in 1..H : Row(k, a) \in rows
  /\ refused' = TRUE /\ UNCHANGED <<k, rows, cell>>
Next == Assign \/ Refuse
Spec == Init /\ [][Next]_vars
Inv ==
  /\ k \in 1..(N + 1) /\ refused \in BOOLEAN
  /\ \A q \in 1..N : q < k => \E a \in 1..H : cell[q] = Table[Wanted[q]][a]
  /\ \A q \in 1..N : q < k => cell[q][1] \in rows
  /\ \A q, p \in 1..N : q < k /\ p < k /\ q # p => cell[q][1] # cell[p][1]
\* C05: an assignment which is not refused serves every item in a row of its own, from a cell of that item
Contract ==
  k = N + 1 =>
    /\ ~refused => \A q \in 1..N : \E a \in 1..H : cell[q] = Table[Wanted[q]][a]
    /\ \A q, p \in 1..N : q # p => cell[q][1] # cell[p][1]
\* expected to fail: requests are executed to their end
NeverDone == k # N + 1
===============================================================================
