------------------------------- MODULE TreeMC -------------------------------
(* All trees of depth at most two over small labels, thresholds and features *)
(* (and all pairs of depth-one trees below a root), with all feature vectors.*)
EXTENDS TreeImpl, TLC
CONSTANTS Labels, Ths, Fts, Vals
LabelVal(i) == CASE i = 0 -> <<>> [] i = 1 -> <<0>> [] i = 2 -> <<1>> [] i = 3 -> <<0, 1>> [] i = 4 -> <<2>>
D0 == {Leaf(LabelVal(i)) : i \in Labels} \cup {None}
D1 == {Inner(th, ft, 7, "leq", l, r) : th \in Ths, ft \in Fts, l \in D0, r \in D0} \cup D0
VARIABLES tree, feat
Init == /\ \E th \in Ths, ft \in Fts, l \in D1, r \in D1 : tree = Inner(th, ft, 9, "leq", l, r)
        /\ feat \in [1..Cardinality(Fts) -> Vals]
Next == FALSE /\ UNCHANGED <<tree, feat>>
Spec == Init /\ [][Next]_<<tree, feat>>

EvalRefines == EvalNode(tree, feat, 1) = (IF Reach(tree, feat) = <<>> THEN <<>> ELSE <<Reach(tree, feat)>>)
EncRefines == LET w == Width(tree) r == BitsOf(Reach(tree, feat))
              IN /\ EncEval(tree, feat, w) = [p \in 1..w |-> IF p - 1 \in r THEN 1 ELSE 0]
                 /\ r \subseteq 0..(w - 1)
                 /\ Attach(tree, Choices(tree, feat))[2] = <<>>
NumberRefines == FixIndex(tree, 0) = <<Number(tree, 0), Internals(tree) - 1>>
NumberInOrder == LET fl == Flatten(Number(tree, 0)) IN \A i \in DOMAIN fl : fl[i].ix = i - 1
PruneRefines == TruncTree(tree) = Prune(tree)
RECURSIVE NoBarren(_)
NoBarren(t) == IsInner(t) => /\ NoBarren(t.l) /\ NoBarren(t.r)
                             /\ ~(t.l.k = "n" /\ t.r.k = "n")
                             /\ t.l # Leaf(<<>>) /\ t.r # Leaf(<<>>)
PruneKeeps == /\ Reach(Prune(tree), feat) = Reach(tree, feat)
              /\ NoBarren(Prune(tree)) /\ Prune(Prune(tree)) = Prune(tree)
CountsAgree == /\ Len(Flatten(tree)) = Internals(tree)
               /\ Leaves(tree) <= Internals(tree) + 1
               /\ DepthOf(tree) <= Internals(tree)
               /\ Internals(Prune(tree)) <= Internals(tree)
Refines == EvalRefines /\ EncRefines /\ NumberRefines /\ NumberInOrder /\ PruneRefines /\ PruneKeeps /\ CountsAgree
=============================================================================
