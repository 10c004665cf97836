------------------------------- MODULE BatchLoop ------------------------------
(* The correction of the replicas after a batched request, for any number of *)
(* items, any number of replicas and any set of addressed cells (proof:      *)
(* BatchProof).  One replica of every item is taken per step: how many       *)
(* were written is counted, and what was written is collected.               *)
EXTENDS Integers
CONSTANTS Items, Cells, H, Place, Val
ASSUME Sizes ==
  /\ Val \subseteq Int /\ H \in Nat \ {0} /\ Place \in [Items -> [1..H -> Cells]]
  \* PlacementProof: the replicas are in cells of their own
  /\ \A i, x \in Items : \A a, b \in 1..H : Place[i][a] = Place[x][b] => i = x /\ a = b
VARIABLES mem, hit, wr, data, k, cnt, sum, cells, old
vars == <<mem, hit, wr, data, k, cnt, sum, cells, old>>
R == 1..H
\* after the rows: the addressed cells hold the data if the query writes, every other cell what it held (OramProof)
Written(c) == hit[c] = 1 /\ wr[c] = 1
AfterRows == [c \in Cells |-> IF Written(c) THEN data[c] ELSE old[c]]
Agree(cs, m) == \A i \in Items : \A a \in R : cs[Place[i][a]] = m[i]
\* at most one of the queries of a request writes a given item
Once == \A i \in Items : \A a, b \in R : Written(Place[i][a]) /\ Written(Place[i][b]) => a = b
Init ==
  /\ mem \in [Items -> Val] /\ old \in [Cells -> Val] /\ hit \in [Cells -> {0, 1}] /\ wr \in [Cells -> {0, 1}] /\ data \in [Cells -> Val]
  /\ Agree(old, mem) /\ Once
  /\ cells = AfterRows
  /\ k = 1 /\ cnt = [i \in Items |-> 0] /\ sum = [i \in Items |-> 0]
S(i, a) == hit[Place[i][a]] * wr[Place[i][a]]
Replica ==
  /\ k <= H
  /\ cnt' = [i \in Items |-> cnt[i] + S(i, k)]
  /\ sum' = [i \in Items |-> sum[i] + S(i, k) * cells[Place[i][k]]]
  /\ k' = k + 1 /\ UNCHANGED <<mem, hit, wr, data, cells, old>>
Fix(i) == cells[Place[i][1]] - cnt[i] * cells[Place[i][1]] + sum[i]
Owned(c) == \E i \in Items : \E a \in R : Place[i][a] = c
Owner(c) == CHOOSE i \in Items : \E a \in R : Place[i][a] = c
Finish ==
  /\ k = H + 1
  /\ cells' = [c \in Cells |-> IF Owned(c) THEN Fix(Owner(c)) ELSE cells[c]]
  /\ k' = H + 2 /\ UNCHANGED <<mem, hit, wr, data, cnt, sum, old>>
Next == Replica \/ Finish
Spec == Init /\ [][Next]_vars
WrittenAt(i, a) == Written(Place[i][a])
\* what item i is after the request
Result(i, v) ==
  /\ \A a \in R : WrittenAt(i, a) => v = data[Place[i][a]]
  /\ (\A a \in R : ~WrittenAt(i, a)) => v = mem[i]
\* C03, C04
Contract == k = H + 2 => \A i \in Items : \A a \in R : Result(i, cells[Place[i][a]])
\* expected to fail: requests are executed to their end
NeverDone == k # H + 2
===============================================================================
