------------------------------ MODULE Together ------------------------------
(* Several independent instances -- contexts, clients with their servers,    *)
(* trees -- in one process, used in turns or at the same time by different   *)
(* threads.  Each has parameters of its own.  A call takes what the process  *)
(* offers it for its parameters (transform plans, scratch buffers, a source  *)
(* of randomness) and then computes with what it took.                       *)
(* What instances must not have in common decides the Design:                *)
(*   own    nothing in common                                                *)
(*   keyed  plans kept for the whole process, one per parameter set          *)
(*   first  plans kept for the whole process, made by whoever comes first    *)
(*   size   plans kept per ring size, made by whoever comes first            *)
(*   slot   one plan kept, made anew when it does not fit, looked at again   *)
(*          when it is used                                                  *)
(*   count  one counter behind everything that is drawn                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Inst, Par, MaxOps, Design, AtOnce
\* Par[i] = [n |-> ring size, dec |-> decomposition]
VARIABLES memo, slot, drawn, busy, took, done
tvars == <<memo, slot, drawn, busy, took, done>>
Nothing == [n |-> 0, dec |-> 0]
Key(p) == CASE Design = "keyed" -> <<p.n, p.dec>> [] Design = "first" -> <<0, 0>> [] OTHER -> <<p.n, 0>>
Kept == Design \in {"keyed", "first", "size"}
Init == /\ memo = [k \in {} |-> Nothing] /\ slot = Nothing /\ drawn = [i \in Inst |-> 0]
        /\ busy = {} /\ took = [i \in Inst |-> Nothing] /\ done = [i \in Inst |-> <<>>]
Source(i) == IF Design = "count" THEN CHOOSE j \in Inst : \A k \in Inst : j <= k ELSE i
Take(i) ==
  /\ i \notin busy /\ Len(done[i]) < MaxOps /\ (AtOnce \/ busy = {})
  /\ busy' = busy \cup {i}
  /\ IF Kept
     THEN LET k == Key(Par[i])
              p == IF k \in DOMAIN memo THEN memo[k] ELSE Par[i]
          IN took' = [took EXCEPT ![i] = p] /\ memo' = [x \in DOMAIN memo \cup {k} |-> IF x = k THEN p ELSE memo[x]] /\ UNCHANGED slot
     ELSE took' = [took EXCEPT ![i] = Par[i]] /\ (IF Design = "slot" THEN slot' = Par[i] ELSE UNCHANGED slot) /\ UNCHANGED memo
  /\ UNCHANGED <<drawn, done>>
Compute(i) ==
  /\ i \in busy
  /\ LET s == Source(i)
         p == IF Design = "slot" THEN slot ELSE took[i]
     IN /\ drawn' = [drawn EXCEPT ![s] = @ + 1]
        /\ done' = [done EXCEPT ![i] = Append(@, [plan |-> p, draw |-> drawn[s] + 1])]
  /\ busy' = busy \ {i} /\ UNCHANGED <<memo, slot, took>>
Next == \E i \in Inst : Take(i) \/ Compute(i)
Spec == Init /\ [][Next]_tvars
\* what an instance gives, it gives as if it were alone
Alone(i) == [k \in 1..MaxOps |-> [plan |-> Par[i], draw |-> k]]
C24Alone == \A i \in Inst : done[i] = SubSeq(Alone(i), 1, Len(done[i]))
=============================================================================
