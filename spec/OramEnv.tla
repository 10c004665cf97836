------------------------------- MODULE OramEnv -------------------------------
(* The environment of the ORAM server: clients which prepare queries at any  *)
(* time and have them executed in any order, or never.  TLC's simulator      *)
(* walks this specification and prints behaviours, which are replayed in the *)
(* real code and judged by OramTrace.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Mode, NItems, NVals, NClients, MaxPend, MaxMulti, MaxBatch, Depth
VARIABLES hist, pend, next

Init == hist = <<>> /\ pend = [x \in {} |-> 0] /\ next = 1

\* k distinct items in random order
RECURSIVE Draw(_, _)
Draw(k, avail) == IF k = 0 \/ avail = {} THEN <<>>
                  ELSE LET D(x) == <<x>> \o Draw(k - 1, avail \ {x})
                       IN CHOOSE d \in {D(x) : x \in {RandomElement(avail)}} : TRUE
Some(S) == RandomElement(S)
Emit(r) == hist' = Append(hist, r)

\* Mode "all": one row, a query for it is executed alone, in a multi request or as a batch of one
\* every random choice is bound once
PrepOne ==
  /\ Mode \in {"one", "multi", "all"} /\ Cardinality(DOMAIN pend) < MaxPend
  /\ \E kind \in {IF Mode = "all" THEN Some({"one", "batch"}) ELSE "one"} :
     \E i \in {Some(0..(NItems - 1))}, op \in {Some({"r", "w"})} :
        /\ Emit([c |-> "prep", q |-> next, kind |-> kind, op |-> op, items |-> <<i>>,
                 v |-> Some(1..NVals), cl |-> Some(0..(NClients - 1))])
        /\ pend' = (next :> [op |-> op, item |-> i]) @@ pend
  /\ next' = next + 1
PrepBatch ==
  /\ Mode = "batch" /\ Cardinality(DOMAIN pend) < MaxPend
  /\ \E k \in {Some(0..MaxBatch)} : \E s \in {Draw(k, 0..(NItems - 1))}, op \in {Some({"r", "w"})} :
        /\ Emit([c |-> "prep", q |-> next, kind |-> "batch", op |-> op, items |-> s,
                 v |-> Some(1..NVals), cl |-> Some(0..(NClients - 1))])
        /\ pend' = (next :> [op |-> op, item |-> 0]) @@ pend
  /\ next' = next + 1
Without(ids) == [x \in (DOMAIN pend) \ ids |-> pend[x]]
Exec ==
  /\ Mode \in {"one", "batch", "all"} /\ pend # [x \in {} |-> 0]
  /\ \E id \in {Some(DOMAIN pend)}, m \in {IF Mode = "all" THEN Some({"one", "batch"}) ELSE Mode} :
     /\ Emit([c |-> m, q |-> id])
     /\ pend' = Without({id})
  /\ UNCHANGED next
\* at most one write per item in one request
RECURSIVE Shuffle(_)
Shuffle(S) == Draw(Cardinality(S), S)
RECURSIVE Pick(_, _, _)
Pick(k, s, written) ==
  IF k = 0 \/ s = <<>> THEN <<>>
  ELSE LET id == Head(s) IN
       IF pend[id].op = "w" /\ pend[id].item \in written THEN Pick(k, Tail(s), written)
       ELSE <<id>> \o Pick(k - 1, Tail(s), IF pend[id].op = "w" THEN written \cup {pend[id].item} ELSE written)
ExecMulti ==
  /\ Mode \in {"multi", "all"} /\ (DOMAIN pend # {} \/ RandomElement(1..6) = 1)
  /\ \E k \in {Some(0..MaxMulti)}, s \in {Shuffle(DOMAIN pend)} :
     \E ids \in {Pick(k, s, {})} :
       /\ Emit([c |-> "multi", qs |-> ids])
       /\ pend' = Without({ids[j] : j \in DOMAIN ids})
  /\ UNCHANGED next
Drop ==
  /\ Cardinality(DOMAIN pend) = MaxPend /\ RandomElement(1..4) = 1
  /\ \E id \in {Some(DOMAIN pend)} :
     /\ Emit([c |-> "drop", q |-> id])
     /\ pend' = Without({id})
  /\ UNCHANGED next
Next == PrepOne \/ PrepBatch \/ Exec \/ ExecMulti \/ Drop
Spec == Init /\ [][Next]_<<hist, pend, next>>
Printed == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
=============================================================================
