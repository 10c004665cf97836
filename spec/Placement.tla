------------------------------ MODULE Placement ------------------------------
(* Item placement: src/naive_hash.rs.  A table of item -> sequence of        *)
(* replica positions <<row, col>> (0-based as in the code).                  *)
EXTENDS Integers, Sequences, FiniteSets

\* a placement is an injection of (item, replica) pairs onto cells of the array
ValidTable(tab, rows, cols, h) ==
  /\ \A i \in DOMAIN tab : Len(tab[i]) = h
  /\ \A i \in DOMAIN tab : \A k \in 1..h :
        /\ tab[i][k][1] \in 0..(rows - 1)
        /\ tab[i][k][2] \in 0..(cols - 1)
  /\ Cardinality({tab[i][k] : i \in DOMAIN tab, k \in 1..h}) = Len(tab) * h

\* greedy assignment: every item takes the first of its rows which is free;
\* result: [ok |-> .., map |-> set of <<row, col, item>>] (items 0-based)
RECURSIVE FirstFree(_, _, _)
FirstFree(pos, k, used) ==
  IF k > Len(pos) THEN 0 ELSE IF pos[k][1] \notin used THEN k ELSE FirstFree(pos, k + 1, used)

RECURSIVE GreedyFrom(_, _, _)
GreedyFrom(tab, items, map) ==
  IF items = <<>> THEN [ok |-> TRUE, map |-> map]
  ELSE LET i == Head(items)
           used == {m[1] : m \in map}
           k == FirstFree(tab[i + 1], 1, used)
       IN IF k = 0 THEN [ok |-> FALSE, map |-> map]
          ELSE GreedyFrom(tab, Tail(items), map \cup {<<tab[i + 1][k][1], tab[i + 1][k][2], i>>})
Greedy(tab, items) == GreedyFrom(tab, items, {})

\* what a mapping must satisfy, whatever procedure produced it
ValidMapping(tab, items, map) ==
  /\ {m[3] : m \in map} = {items[k] : k \in DOMAIN items}
  /\ Cardinality(map) = Len(items)
  /\ Cardinality({m[1] : m \in map}) = Len(items)
  /\ \A m \in map : \E k \in DOMAIN tab[m[3] + 1] : tab[m[3] + 1][k] = <<m[1], m[2]>>
=============================================================================
