------------------------------- MODULE ViewMC -------------------------------
(* Two runs of the protocol side by side: the same kinds of requests in the  *)
(* same order, but other operations, other items.  The server must not be    *)
(* able to tell them apart: shapes, freshness and rewritten cells agree.     *)
(* Ciphertexts carry nonces.  Variants: only addressed cells are rewritten;  *)
(* reads send no data; rows without an item get no query; as many index bits *)
(* as the item needs; padding rows share their ciphertexts; reads rewrite    *)
(* nothing.                                                                  *)
EXTENDS View, TLC
CONSTANTS Rows, Cols, Items, Depth, Variant
VARIABLES used, sees, nonce, n
vars == <<used, sees, nonce, n>>
Runs == 1..2
\* item -> its cell in each row is known to everyone: item i may be served by row (i % Rows) only
RowOf(i) == 1 + (i % Rows)
ColOf(i) == i \div Rows
RECURSIVE Log2(_)
Log2(m) == IF m <= 1 THEN 0 ELSE 1 + Log2(m \div 2)
RECURSIVE Need(_)
Need(c) == IF c <= 1 THEN 1 ELSE 1 + Need(c \div 2)
\* the number of ciphertexts of one query
Size(op, col) == (IF Variant = "bits" THEN Need(col) ELSE Log2(Cols)) + 1 + (IF op = "r" /\ Variant = "nodata" THEN 0 ELSE 1)
\* a batch: one query per row; its[r] the item served there or -1
Queries(op, its, from) ==
  LET rs == IF Variant = "padding" THEN SelectSeq([r \in 1..Rows |-> r], LAMBDA r : its[r] # -1) ELSE [r \in 1..Rows |-> r]
      size(r) == IF its[r] = -1 THEN Size("r", 0) ELSE Size(op, ColOf(its[r]))
      RECURSIVE Base(_)
      Base(k) == IF k = 1 THEN from ELSE Base(k - 1) + size(rs[k - 1])
  IN [k \in DOMAIN rs |-> [shape |-> <<size(rs[k])>>,
                           cts |-> [j \in 1..size(rs[k]) |-> IF Variant = "reuse" /\ its[rs[k]] = -1 THEN -1 - j ELSE Base(k) + j]]]
Rewritten(op, its) == CASE Variant = "addressed" -> {<<r, ColOf(its[r]) + 1>> : r \in {x \in 1..Rows : its[x] # -1}}
                        [] Variant = "readonly" /\ op = "r" -> {}
                        [] OTHER -> Covered("batch", Rows, Cols, Rows)
Init == used = [x \in Runs |-> {}] /\ sees = [x \in Runs |-> <<>>] /\ nonce = 0 /\ n = 0
Sel == {s \in [1..Rows -> {-1} \cup 0..(Items - 1)] : \A r \in 1..Rows : s[r] # -1 => RowOf(s[r]) = r}
Masks(qs) == LET RECURSIVE Cat(_)
                 Cat(k) == IF k > Len(qs) THEN <<>> ELSE qs[k].cts \o Cat(k + 1)
             IN Cat(1)
\* what is visible of a request: how many queries, their shapes, whether every mask is new, what is rewritten
Seen(qs, us, w) == [count |-> Len(qs), shapes |-> [k \in DOMAIN qs |-> qs[k].shape], fresh |-> FreshMasks(Masks(qs), us), cells |-> w]
Next == /\ n < Depth
        /\ \E ops \in [Runs -> {"r", "w"}], its \in [Runs -> Sel] :
             LET q == [x \in Runs |-> Queries(ops[x], its[x], nonce)]
             IN /\ sees' = [x \in Runs |-> Append(sees[x], Seen(q[x], used[x], Rewritten(ops[x], its[x])))]
                /\ used' = [x \in Runs |-> used[x] \cup Range(Masks(q[x]))]
        /\ nonce' = nonce + 100 /\ n' = n + 1
Spec == Init /\ [][Next]_vars
Indistinguishable == sees[1] = sees[2]
AllFresh == \A x \in Runs : \A k \in DOMAIN sees[x] : sees[x][k].fresh /\ sees[x][k].count = Rows
=============================================================================
