----------------------------- MODULE TreeTrace ------------------------------
(* Is a recorded run of the real decision-tree operations a behaviour of     *)
(* Tree?  Variables: the current tree and the clients' feature vectors.      *)
EXTENDS Tree, TraceBase
VARIABLES l, diag, tree, cf, req
tvars == <<l, diag, tree, cf, req>>
E == Trace[l]
OK == E.out = "ok"
Stay == UNCHANGED <<tree, cf, req>>

InRange(f) == \A i \in DOMAIN f : f[i] < cf.n
\* what the encrypted evaluation must refuse: every node is compared, wherever its path leads
EncBad(f) == \E i \in DOMAIN Flatten(tree) : LET x == Flatten(tree)[i] IN x.th >= cf.n \/ x.ft >= Len(f)
EncMayRefuse(f) == EncBad(f) \/ ~IsInner(tree) \/ ~AllLeq(tree)
NeedsAll(f) == \A i \in DOMAIN Flatten(tree) : Flatten(tree)[i].ft < Len(f)
\* the outputs, one per bit, decrypt to the bits of the label and have room for all of them
Decodes(o, v) == /\ \A p \in DOMAIN o : o[p] = IF p - 1 \in BitsOf(v) THEN 1 ELSE 0
                 /\ \A x \in BitsOf(v) : x < Len(o)

Step ==
  CASE E.ev = "new" -> /\ cf' = [n |-> E.n, lv |-> E.lv] /\ req' = <<>> /\ tree' = None
                       /\ diag' = Obs("created", OK)
    [] E.ev = "tree" -> tree' = E.tree /\ UNCHANGED <<cf, req>> /\ diag' = Obs("created", OK)
    [] E.ev = "load" -> tree' = E.tree /\ UNCHANGED <<cf, req>> /\ diag' = (IF OK THEN Obs("document", E.after = E.tree) ELSE {"load-refused"})
    [] E.ev = "default" -> tree' = E.after /\ UNCHANGED <<cf, req>>
                           /\ diag' = (IF OK THEN Obs("depth", DepthOf(E.after) = E.depth /\ AllLeq(E.after)) ELSE {"default-refused"})
    [] E.ev = "number" -> IF OK THEN /\ tree' = Number(tree, 0) /\ UNCHANGED <<cf, req>>
                                     /\ diag' = Obs("numbering", E.after = Number(tree, 0)) \cup Obs("last-index", E.last = Internals(tree) - 1)
                          ELSE Stay /\ diag' = Obs("number-refused", ~IsInner(tree))
    [] E.ev = "flatten" -> Stay /\ diag' = Obs("flatten", OK /\ E.flat = Flatten(tree))
    [] E.ev = "count" -> Stay /\ diag' = (IF ~OK THEN {"count-refused"} ELSE Obs("leaves", E.leaves = Leaves(tree)) \cup Obs("internals", E.internal = Internals(tree))
                                          \cup Obs("depth", E.depth = DepthOf(tree)) \cup Obs("max-feature", E.maxft = MaxFeature(tree)))
    [] E.ev = "trunc" -> /\ UNCHANGED <<cf, req>> /\ tree' = (IF OK /\ E.keep THEN Prune(tree) ELSE tree)
                         /\ diag' = (IF ~OK THEN {"trunc-refused"} ELSE Obs("pruned", E.res = Prune(tree)) \cup Obs("original", E.after = tree))
    [] E.ev = "clone" -> Stay /\ diag' = Obs("clone", OK /\ E.res = tree)
    [] E.ev = "json" -> Stay /\ diag' = Obs("json", OK /\ E.res = tree /\ E.res2 = tree)
    [] E.ev = "eval" -> Stay /\ diag' = (IF OK THEN Obs("path-accepted", PathFits(tree, E.f)) \cup (IF PathFits(tree, E.f) THEN Obs("label", E.v = Reach(tree, E.f)) ELSE {})
                                         ELSE Obs("eval-refused", ~NeedsAll(E.f) \/ ~AllLeq(tree)))
    [] E.ev = "feat" -> /\ UNCHANGED <<tree, cf>>
                        /\ req' = [q \in DOMAIN req \cup {E.q} |-> IF q = E.q /\ OK THEN E.f ELSE IF q \in DOMAIN req THEN req[q] ELSE <<>>]
                        /\ diag' = (IF OK THEN Obs("feature-accepted", InRange(E.f)) \cup Obs("request", E.count = Len(E.f) /\ \A i \in DOMAIN E.levels : E.levels[i] = cf.lv)
                                    ELSE Obs("feature-refused", ~InRange(E.f)))
    [] E.ev = "enc" -> /\ Stay
                       /\ diag' = IF E.q \notin DOMAIN req THEN Obs("enc-unknown", ~OK)
                          ELSE LET f == req[E.q]
                               IN IF ~OK THEN Obs("enc-refused", EncMayRefuse(f))
                                  ELSE Obs("enc-accepted", ~EncBad(f))
                                       \cup (IF EncBad(f) THEN {} ELSE Obs("enc-label", \A i \in DOMAIN E.outs : Decodes(E.outs[i], Reach(tree, f)))
                                                                        \cup Obs("max-leaf", E.max = MaxLabel(tree)))
    \* each node's encrypted choice by itself: a node with one at the left and two at the right
    [] E.ev = "choices" -> /\ Stay
                           /\ diag' = IF E.q \notin DOMAIN req THEN Obs("choices-unknown", ~OK)
                              ELSE LET f == req[E.q]
                                       F == Flatten(tree)
                                   IN IF ~OK THEN Obs("choices-refused", EncBad(f) \/ ~AllLeq(tree))
                                      ELSE Obs("choices-accepted", ~EncBad(f))
                                           \cup (IF EncBad(f) THEN {} ELSE Obs("choices", Len(E.outs) = Len(F) /\ \A i \in DOMAIN F :
                                                     i \in DOMAIN E.outs => Decodes(E.outs[i], IF f[F[i].ft + 1] <= F[i].th THEN <<0>> ELSE <<1>>)))
    [] E.ev = "simulate" -> /\ Stay
                            /\ LET good == \A i \in DOMAIN E.fs : (\A j \in DOMAIN E.fs[i] : E.fs[i][j] < 2048) /\ NeedsAll(E.fs[i])
                                   ths == \A i \in DOMAIN Flatten(tree) : Flatten(tree)[i].th < 2048
                               IN diag' = IF OK THEN Obs("simulate-accepted", good /\ (E.fs = <<>> \/ ths))
                                                     \cup (IF good THEN Obs("predictions", E.vs = [i \in DOMAIN E.fs |-> Reach(tree, E.fs[i])]) \cup Obs("inputs", E.inputs = Len(E.fs)) ELSE {})
                                          ELSE Obs("simulate-refused", ~good \/ ~ths \/ ~IsInner(tree) \/ ~AllLeq(tree))

TraceInit == l = 1 /\ diag = {} /\ tree = None /\ cf = [n |-> 1, lv |-> 1] /\ req = <<>>
\* without a tree there is nothing to look at
TraceNext == l <= TraceLen /\ l' = l + 1 /\ IF tree.k = "n" /\ E.ev \notin {"new", "tree", "load", "default", "feat"} THEN Stay /\ diag' = {} ELSE Step
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == diag = {}
=============================================================================
