-------------------------------- MODULE Tree --------------------------------
(* Decision trees: src/decision_tree.rs.  A node is a leaf with a label, an  *)
(* internal node, or nothing (a missing child).  Labels are the increasing   *)
(* sequences of the positions of their one bits, so <<>> is zero.            *)
EXTENDS Integers, Sequences, FiniteSets

Leaf(v) == [k |-> "l", v |-> v]
None == [k |-> "n"]
Inner(th, ft, ix, op, l, r) == [k |-> "i", th |-> th, ft |-> ft, ix |-> ix, op |-> op, l |-> l, r |-> r]
IsInner(t) == t.k = "i"

\* ---- meaning ----------------------------------------------------------------
\* the label reached by following the comparisons, zero at a missing child
RECURSIVE Reach(_, _)
Reach(t, f) == CASE t.k = "n" -> <<>>
                 [] t.k = "l" -> t.v
                 [] OTHER -> IF f[t.ft + 1] <= t.th THEN Reach(t.l, f) ELSE Reach(t.r, f)
\* does following the comparisons only look at features which exist
RECURSIVE PathFits(_, _)
PathFits(t, f) == IF ~IsInner(t) THEN TRUE
                  ELSE t.ft < Len(f) /\ (IF f[t.ft + 1] <= t.th THEN PathFits(t.l, f) ELSE PathFits(t.r, f))

\* ---- shape ------------------------------------------------------------------
RECURSIVE Internals(_)
Internals(t) == IF IsInner(t) THEN 1 + Internals(t.l) + Internals(t.r) ELSE 0
RECURSIVE Leaves(_)
Leaves(t) == CASE t.k = "l" -> 1 [] t.k = "n" -> 0 [] OTHER -> Leaves(t.l) + Leaves(t.r)
RECURSIVE DepthOf(_)
DepthOf(t) == IF ~IsInner(t) THEN 0
              ELSE LET a == DepthOf(t.l) b == DepthOf(t.r) IN 1 + (IF a > b THEN a ELSE b)
\* internal nodes, depth first, left to right
RECURSIVE Flatten(_)
Flatten(t) == IF IsInner(t) THEN <<[th |-> t.th, ft |-> t.ft, ix |-> t.ix, op |-> t.op]>> \o Flatten(t.l) \o Flatten(t.r) ELSE <<>>
MaxFeature(t) == LET S == {Flatten(t)[i].ft : i \in 1..Internals(t)} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
RECURSIVE LabelSet(_)
LabelSet(t) == CASE t.k = "l" -> {t.v} [] t.k = "n" -> {<<>>} [] OTHER -> LabelSet(t.l) \cup LabelSet(t.r)
\* labels compare as numbers: the highest bit in which they differ decides
BitsOf(v) == {v[i] : i \in DOMAIN v}
LabelLess(a, b) == LET D == (BitsOf(a) \ BitsOf(b)) \cup (BitsOf(b) \ BitsOf(a))
                   IN D # {} /\ (CHOOSE m \in D : \A x \in D : x <= m) \in BitsOf(b)
MaxLabel(t) == LET S == LabelSet(t) IN CHOOSE m \in S : \A x \in S : ~LabelLess(m, x)
RECURSIVE AllLeq(_)
AllLeq(t) == IsInner(t) => t.op = "leq" /\ AllLeq(t.l) /\ AllLeq(t.r)

\* ---- structure operations ---------------------------------------------------
\* indices i, i+1, ... in depth-first left-to-right order
RECURSIVE Number(_, _)
Number(t, i) == IF ~IsInner(t) THEN t
                ELSE [t EXCEPT !.ix = i, !.l = Number(t.l, i + 1), !.r = Number(t.r, i + 1 + Internals(t.l))]
\* subtrees without a non-zero leaf
RECURSIVE Barren(_)
Barren(t) == CASE t.k = "n" -> TRUE [] t.k = "l" -> t.v = <<>> [] OTHER -> Barren(t.l) /\ Barren(t.r)
RECURSIVE Prune(_)
Prune(t) == IF Barren(t) THEN None ELSE IF IsInner(t) THEN [t EXCEPT !.l = Prune(t.l), !.r = Prune(t.r)] ELSE t
=============================================================================
