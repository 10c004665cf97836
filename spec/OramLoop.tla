------------------------------- MODULE OramLoop -------------------------------
(* Requests of any number of queries on a row of any number of columns,      *)
(* (proof: OramProof).  The server's loops are a state machine: one query is *)
(* taken per step.  Every column adds selector * flag * (data - old) to what *)
(* is written back, and the response of a query is collected column by       *)
(* column from the old row.  Values are integers: the arithmetic is linear,  *)
(* so it holds modulo every t.                                               *)
EXTENDS Integers
CONSTANTS C, K, Val
ASSUME Sizes == C \in Nat \ {0} /\ K \in Nat /\ Val \subseteq Int
Cols == 0..(C - 1)
Qs == 1..K
VARIABLES old, addr, wr, data, k, j, acc, resp, new
vars == <<old, addr, wr, data, k, j, acc, resp, new>>
L(q, c) == IF c = addr[q] THEN 1 ELSE 0      \* DemuxProof
\* writes of one request are to distinct items
Distinct == \A a, b \in Qs : a # b /\ wr[a] = 1 /\ wr[b] = 1 => addr[a] # addr[b]
Init ==
  /\ old \in [Cols -> Val] /\ addr \in [Qs -> Cols] /\ wr \in [Qs -> {0, 1}] /\ data \in [Qs -> Val]
  /\ Distinct
  /\ k = 1 /\ j = 0 /\ acc = 0 /\ resp = [q \in Qs |-> 0] /\ new = old
Column ==
  /\ k <= K /\ j < C
  /\ acc' = acc + L(k, j) * old[j]
  /\ new' = [new EXCEPT ![j] = @ + L(k, j) * (wr[k] * (data[k] - old[j]))]
  /\ j' = j + 1
  /\ UNCHANGED <<old, addr, wr, data, k, resp>>
Answer ==
  /\ k <= K /\ j = C
  /\ resp' = [resp EXCEPT ![k] = acc]
  /\ acc' = 0 /\ j' = 0 /\ k' = k + 1
  /\ UNCHANGED <<old, addr, wr, data, new>>
Next == Column \/ Answer
Spec == Init /\ [][Next]_vars
\* C01, C02: a snapshot is read, and exactly what was written is changed
Contract ==
  k = K + 1 =>
    /\ \A q \in Qs : resp[q] = old[addr[q]]
    /\ \A q \in Qs : wr[q] = 1 => new[addr[q]] = data[q]
    /\ \A c \in Cols : (\A q \in Qs : wr[q] = 1 => addr[q] # c) => new[c] = old[c]
\* expected to fail: requests are executed to their end
NeverDone == k # K + 1
===============================================================================
