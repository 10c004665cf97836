------------------------------- MODULE OramMC -------------------------------
(* Exhaustive model of Oram: every placement, every history of prepared and  *)
(* executed queries, for small shapes.                                       *)
EXTENDS Oram
CONSTANTS Rows, Cols, H, Tmod, Vals, Ids, Modes, FixTab, MaxBatch
\* Vals: number of distinct values; values are one-coefficient vectors

Val == {<<v>> : v \in 0..(Vals - 1)}
NItems == (Rows * Cols) \div H
CellSet == {<<r, c>> : r \in 0..(Rows - 1), c \in 0..(Cols - 1)}
\* all injections of (item, replica) into cells; one representative if FixTab
Perm(S) == {f \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => f[a] # f[b]}
TabOf(f) == [i \in 1..NItems |-> [k \in 1..H |-> f[(i - 1) * H + k]]]
DiagTab == [i \in 1..NItems |-> [k \in 1..H |->
              LET x == (i - 1) * H + (k - 1) IN <<x % Rows, x \div Rows>>]]
Tables == IF FixTab THEN {DiagTab} ELSE {TabOf(f) : f \in Perm(CellSet)}

Init ==
  /\ \E tab \in Tables :
       shape = MkShape(Rows, Cols, H, Tmod, 1, tab)
  \* setup stores the same value in every replica
  /\ \E m \in [1..NItems -> Val] :
       cells = Setup(shape, m)
  /\ pend = [x \in {} |-> 0]
  /\ last = NoStep

Fresh == {id \in Ids : id \notin DOMAIN pend /\ \A j \in Ids : j < id => j \in DOMAIN pend}
ItemSeqs == UNION {{s \in [1..n -> 0..(NItems - 1)] : \A a, b \in 1..n : a # b => s[a] # s[b]} : n \in 0..MaxBatch}

PrepOne == \E id \in Fresh, i \in 0..(NItems - 1), v \in Val, wr \in 0..1 :
             Rows = 1 /\ Prepare(id, OneQuery(i, wr, v))
\* an unplaceable list is refused: no query comes out
PrepBatch == \E id \in Fresh, s \in ItemSeqs, v \in Val, wr \in 0..1 :
               LET g == Greedy(shape.tab, s) IN
               /\ g.ok
               /\ ValidMapping(shape.tab, s, g.map)
               /\ Prepare(id, BatchQuery(g.map, wr, v))
MultiSeqs == UNION {{s \in [1..n -> DOMAIN pend] : \A a, b \in 1..n : a # b => s[a] # s[b]} : n \in 0..Cardinality(Ids)}

Next ==
  \/ "one" \in Modes /\ (PrepOne \/ \E id \in DOMAIN pend : ExecOne(id))
  \/ "multi" \in Modes /\ (PrepOne \/ \E s \in MultiSeqs :
        /\ WritesDistinct([k \in DOMAIN s |-> Reqs(pend[s[k]])[1]])
        /\ ExecMulti(s))
  \/ "batch" \in Modes /\ (PrepBatch \/ \E id \in DOMAIN pend : ExecBatch(id))
  \/ "mix" \in Modes /\ (PrepBatch \/ \E s \in [1..Rows -> DOMAIN pend] :
        /\ Cardinality({s[k] : k \in 1..Rows}) = Rows
        /\ WritesDistinct(MixReqs(s))
        /\ ExecMix(s))
  \/ \E id \in DOMAIN pend : Discard(id)
Spec == Init /\ [][Next]_ovars
\* `last` only reports the step
View == <<shape, cells, pend>>
=============================================================================
