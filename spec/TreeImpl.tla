------------------------------ MODULE TreeImpl ------------------------------
(* How the code does it: numbering by returning the last index used, pruning *)
(* bottom up, plaintext evaluation visiting both children with a 0/1 flag,   *)
(* and encrypted evaluation on a tree whose choice bits are consumed in the  *)
(* order of the flattened list, accumulating every leaf into the output.     *)
EXTENDS Tree
CONSTANT Variant   \* "code", or a mutation showing that the refinement is not vacuous

\* fix_index: <<tree, last index used>>
RECURSIVE FixIndex(_, _)
FixIndex(t, i) ==
  LET lft == IF IsInner(t.l) THEN FixIndex(t.l, i + 1) ELSE <<t.l, i>>
      j == IF Variant = "index" THEN i ELSE lft[2]
      rgt == IF IsInner(t.r) THEN FixIndex(t.r, j + 1) ELSE <<t.r, lft[2]>>
  IN <<[t EXCEPT !.ix = i, !.l = lft[1], !.r = rgt[1]], rgt[2]>>

RECURSIVE TruncTree(_)
TruncTree(t) ==
  CASE t.k = "n" -> None
    [] t.k = "l" -> IF t.v = <<>> THEN None ELSE t
    [] OTHER -> LET a == TruncTree(t.l) b == TruncTree(t.r)
                IN IF (IF Variant = "prune" THEN a = None \/ b = None ELSE a = None /\ b = None) THEN None
                   ELSE [t EXCEPT !.l = a, !.r = b]

\* eval_node: out accumulates label * flag; a label is added as a number, so two reached leaves would show as a bag
RECURSIVE EvalNode(_, _, _)
EvalNode(t, f, b) ==   \* the sequence of labels added
  CASE t.k = "n" -> <<>>
    [] t.k = "l" -> IF b = 1 /\ t.v # <<>> THEN <<t.v>> ELSE <<>>
    [] OTHER -> IF f[t.ft + 1] <= t.th THEN EvalNode(t.l, f, b) \o EvalNode(t.r, f, b * (1 - b))
                ELSE EvalNode(t.l, f, b * (1 - b)) \o EvalNode(t.r, f, b)

\* compare_expand: one choice bit per flattened node
Choices(t, f) == LET fl == Flatten(t) IN [i \in DOMAIN fl |-> IF f[fl[i].ft + 1] <= fl[i].th THEN 1 ELSE 0]
\* EncNode::new consumes them in preorder: <<tree with bits (in ix), rest>>
RECURSIVE Attach(_, _)
Attach(t, bits) ==
  IF ~IsInner(t) THEN <<IF t.k = "n" THEN Leaf(<<>>) ELSE t, bits>>
  ELSE LET first == IF Variant = "rightfirst" THEN Attach(t.r, Tail(bits)) ELSE Attach(t.l, Tail(bits))
           second == IF Variant = "rightfirst" THEN Attach(t.l, first[2]) ELSE Attach(t.r, first[2])
       IN <<[t EXCEPT !.ix = bits[1], !.l = IF Variant = "rightfirst" THEN second[1] ELSE first[1],
                      !.r = IF Variant = "rightfirst" THEN first[1] ELSE second[1]], second[2]>>
\* eval_enc_node: counts per output bit; flag b goes left times the bit, right times what is left
RECURSIVE AddLeaves(_, _, _)
AddLeaves(t, b, out) ==
  IF ~IsInner(t) THEN [p \in DOMAIN out |-> out[p] + (IF p - 1 \in BitsOf(t.v) THEN b ELSE 0)]
  ELSE AddLeaves(t.r, b - t.ix * b, AddLeaves(t.l, t.ix * b, out))
EncEval(t, f, width) == AddLeaves(Attach(t, Choices(t, f))[1], 1, [p \in 1..width |-> 0])
Width(t) == LET m == MaxLabel(t) IN IF m = <<>> THEN 0 ELSE m[Len(m)] + 1
=============================================================================
