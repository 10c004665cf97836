------------------------------ MODULE TreeEnv -------------------------------
(* Random trees, feature vectors and sequences of operations on them, drawn  *)
(* by TLC from the specification.                                            *)
EXTENDS Tree, TLC, Json
CONSTANTS N, NF, MaxDepth, Style, Depth, EncOn
VARIABLES tree, hist, reqs
vars == <<tree, hist, reqs>>
Some(S) == RandomElement(S)
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortSet(S \ {m})
Label(d) == LET w == Some(1..8)
         IN CASE w <= 2 -> <<>> [] w = 3 -> <<0>> [] w = 4 -> SortSet({Some(0..3), Some(0..3)}) [] w = 5 -> SortSet({Some(0..7), Some(0..7), Some(0..7)})
              [] w = 6 -> IF Style = "wide" THEN SortSet({Some(0..63), Some(0..63), 63}) ELSE <<1>> [] OTHER -> SortSet({Some(0..2)})
Threshold(d) == LET w == Some(1..4) IN CASE w = 1 -> Some({0, N - 1, N - 2, 1}) [] OTHER -> Some(0..(N - 1))
\* (an operator's argument may be evaluated at every use: the two sides are then only mostly the same)
Twin(th, x) == Inner(th, Some(0..(NF - 1)), Some(0..9), "leq", x, x)
RECURSIVE Rand(_)
Rand(d) ==
  LET w == Some(1..12)
  IN IF d = 0 THEN (IF w = 1 THEN None ELSE Leaf(Label(w)))
     ELSE IF d < MaxDepth /\ w = 1 THEN None
     ELSE IF d < MaxDepth /\ w <= 4 THEN Leaf(Label(w))
     \* a node both of whose sides say the same, often nothing
     ELSE IF d < MaxDepth /\ w <= 6 THEN Twin(Threshold(w), Leaf(IF w = 5 THEN <<>> ELSE Label(w)))
     ELSE IF Style = "line" THEN
          LET left == Some({0, 1}) IN Inner(Threshold(w), Some(0..(NF - 1)), Some(0..9), "leq", IF left = 1 THEN Rand(d - 1) ELSE Leaf(Label(w)), IF left = 1 THEN Leaf(Label(w)) ELSE Rand(d - 1))
     ELSE Inner(Threshold(w), Some(0..(NF - 1)), Some(0..9), "leq", Rand(d - 1), Rand(d - 1))
\* a feature vector, often right at the thresholds
RECURSIVE Features(_, _)
Features(t, k) ==
  IF k = 0 THEN <<>>
  ELSE LET fl == Flatten(t)  w == Some(1..3)  at == fl[Some(DOMAIN fl)].th + Some({-1, 0, 1})
       IN Features(t, k - 1) \o <<IF w = 1 \/ at < 0 \/ at >= N THEN Some(0..(N - 1)) ELSE at>>
Emit(r) == hist' = Append(hist, r)
Grow == \E t \in {IF hist = <<>> THEN Rand(MaxDepth) ELSE Rand(MaxDepth)} : tree' = t /\ Emit([c |-> "tree", tree |-> t]) /\ UNCHANGED reqs
Next ==
  /\ Len(hist) < Depth
  /\ IF ~IsInner(tree) THEN Grow
     ELSE \E w \in {IF Len(hist) < Depth THEN Some(1..(IF EncOn THEN 20 ELSE 13)) ELSE 0} : \E f \in {Features(tree, NF)} :
       CASE w = 1 -> Grow
         [] w = 2 -> tree' = Number(tree, 0) /\ Emit([c |-> "number"]) /\ UNCHANGED reqs
         [] w = 3 -> Emit([c |-> "flatten"]) /\ UNCHANGED <<tree, reqs>>
         [] w = 4 -> Emit([c |-> "count"]) /\ UNCHANGED <<tree, reqs>>
         [] w = 5 -> Emit([c |-> "json"]) /\ UNCHANGED <<tree, reqs>>
         [] w = 6 -> Emit([c |-> "clone"]) /\ UNCHANGED <<tree, reqs>>
         [] w = 7 -> Emit([c |-> "trunc", keep |-> FALSE]) /\ UNCHANGED <<tree, reqs>>
         [] w = 8 -> tree' = Prune(tree) /\ Emit([c |-> "trunc", keep |-> TRUE]) /\ UNCHANGED reqs
         [] w \in 9..13 -> Emit([c |-> "eval", f |-> f]) /\ UNCHANGED <<tree, reqs>>
         [] w \in 14..16 \/ reqs = {} -> Emit([c |-> "feat", q |-> Cardinality(reqs), f |-> f]) /\ reqs' = reqs \cup {Cardinality(reqs)} /\ UNCHANGED tree
         [] OTHER -> Emit([c |-> "enc", q |-> Some(reqs), times |-> 1 + (w % 2)]) /\ UNCHANGED <<tree, reqs>>
Init == tree = None /\ hist = <<>> /\ reqs = {}
Spec == Init /\ [][Next]_vars
Printed == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
=============================================================================
