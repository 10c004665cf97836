----------------------------- MODULE PlacementMC -----------------------------
(* Every placement of a small array and every ordered request: the greedy    *)
(* procedure either refuses or returns a valid mapping, step by step as      *)
(* src/naive_hash.rs does it.  The variants (an item silently dropped; a row *)
(* taken over; the last row tried instead of any) are rejected.              *)
EXTENDS Placement, TLC
CONSTANTS Rows, Cols, H, Dom, Variant
VARIABLES tab, items, k, map, st
vars == <<tab, items, k, map, st>>
NCells == Rows * Cols
Inj == {[i \in 1..(H * Dom) |-> p[i] - 1] : p \in Permutations(1..(H * Dom))}
TabOf(s) == [i \in 1..Dom |-> [r \in 1..H |-> <<s[(i - 1) * H + r] \div Cols, s[(i - 1) * H + r] % Cols>>]]
Seqs == UNION {{s \in [1..n -> 0..(Dom - 1)] : \A i, j \in 1..n : i # j => s[i] # s[j]} : n \in 0..Dom}
ASSUME H * Dom = NCells
Init == /\ tab = <<>> /\ items \in Seqs /\ k = 1 /\ map = {} /\ st = "choose"
Used == {m[1] : m \in map}
Next == \/ st = "choose" /\ \E s \in Inj : tab' = TabOf(s) /\ st' = "run" /\ UNCHANGED <<items, k, map>>
        \/ st = "run" /\ k > Len(items) /\ st' = "ok" /\ UNCHANGED <<tab, items, k, map>>
        \/ /\ st = "run" /\ k <= Len(items)
           /\ LET i == items[k]
                  f == FirstFree(tab[i + 1], 1, Used)
              IN IF f = 0
                 THEN CASE Variant = "drop" -> k' = k + 1 /\ UNCHANGED <<map, st>>
                        [] Variant = "steal" -> LET p == tab[i + 1][1] IN map' = {m \in map : m[1] # p[1]} \cup {<<p[1], p[2], i>>} /\ k' = k + 1 /\ UNCHANGED st
                        [] OTHER -> st' = "refused" /\ UNCHANGED <<map, k>>
                 ELSE /\ map' = map \cup {<<tab[i + 1][f][1], IF Variant = "column" THEN tab[i + 1][1][2] ELSE tab[i + 1][f][2], i>>}
                      /\ k' = k + 1 /\ UNCHANGED st
           /\ UNCHANGED <<tab, items>>
Spec == Init /\ [][Next]_vars
Valid == /\ tab # <<>> => ValidTable(tab, Rows, Cols, H)
         /\ st = "ok" => ValidMapping(tab, items, map)
AsGreedy == st \in {"ok", "refused"} => Greedy(tab, items).ok = (st = "ok") /\ Greedy(tab, items).map = map
\* a request of at most as many items as replicas can never be refused when its rows differ
RoomEnough == st = "refused" => \E i \in DOMAIN items : {tab[items[i] + 1][r][1] : r \in 1..H} \subseteq Used
=============================================================================
