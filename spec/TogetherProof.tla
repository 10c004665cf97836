---------------------------- MODULE TogetherProof -----------------------------
(* Proof, with TLAPS, that instances which have nothing in common, or only   *)
(* plans kept per parameter set, give what they give alone: for any number   *)
(* of instances, parameter sets and calls, in turns or at once.              *)
EXTENDS Together, TLAPS
Sets == [n : Nat, dec : Nat]
ASSUME Given == Par \in [Inst -> Sets] /\ Design \in {"own", "keyed"} /\ MaxOps \in Nat
\* what C24Alone says, call by call
AsAlone == \A i \in Inst : \A k \in 1..Len(done[i]) : done[i][k] = [plan |-> Par[i], draw |-> k]
Inv ==
  /\ busy \subseteq Inst
  /\ took \in [Inst -> Sets] /\ drawn \in [Inst -> Nat] /\ done \in [Inst -> Seq([plan : Sets, draw : Nat])]
  /\ \A i \in busy : took[i] = Par[i]
  /\ \A k \in DOMAIN memo : memo[k] = [n |-> k[1], dec |-> k[2]]
  /\ \A i \in Inst : drawn[i] = Len(done[i])
  /\ AsAlone
LEMMA Keys == ASSUME NEW p \in Sets, Design = "keyed" PROVE [n |-> Key(p)[1], dec |-> Key(p)[2]] = p
  BY DEF Key, Sets
LEMMA InitInv == Init => Inv
  BY Given DEF Init, Inv, AsAlone, Sets, Nothing
LEMMA TakeInv == ASSUME Inv, NEW i \in Inst, Take(i) PROVE Inv'
<1> USE Given
<1>1. Par[i] \in Sets /\ busy' = busy \cup {i} /\ drawn' = drawn /\ done' = done
  BY DEF Take
<1>2. took' = [took EXCEPT ![i] = Par[i]] /\ \A k \in DOMAIN memo' : memo'[k] = [n |-> k[1], dec |-> k[2]]
  <2>1. CASE Design = "own"
    BY <2>1 DEF Take, Kept, Inv
  <2>2. CASE Design = "keyed"
    <3> DEFINE k == Key(Par[i])
               p == IF k \in DOMAIN memo THEN memo[k] ELSE Par[i]
    <3>1. took' = [took EXCEPT ![i] = p] /\ memo' = [x \in DOMAIN memo \cup {k} |-> IF x = k THEN p ELSE memo[x]]
      BY <2>2 DEF Take, Kept
    <3>2. [n |-> k[1], dec |-> k[2]] = Par[i]
      BY <2>2, <1>1, Keys
    <3>3. p = Par[i]
      BY <3>2 DEF Inv
    <3> HIDE DEF k, p
    <3>4. \A x \in DOMAIN memo' : memo'[x] = [n |-> x[1], dec |-> x[2]]
      BY <3>1, <3>2, <3>3 DEF Inv
    <3> QED BY <3>1, <3>3, <3>4
  <2> QED BY <2>1, <2>2
<1>3. took' \in [Inst -> Sets] /\ \A m \in busy' : took'[m] = Par[m]
  BY <1>1, <1>2 DEF Inv
<1> QED BY <1>1, <1>2, <1>3 DEF Inv, AsAlone
LEMMA ComputeInv == ASSUME Inv, NEW i \in Inst, Compute(i) PROVE Inv'
<1> USE Given
<1>1. took[i] = Par[i] /\ took' = took /\ memo' = memo /\ busy' = busy \ {i}
  BY DEF Compute, Inv
<1>2. drawn' = [drawn EXCEPT ![i] = drawn[i] + 1] /\ done' = [done EXCEPT ![i] = Append(done[i], [plan |-> Par[i], draw |-> drawn[i] + 1])]
  BY <1>1 DEF Compute, Source
<1> DEFINE x == [plan |-> Par[i], draw |-> drawn[i] + 1]
<1>3. x \in [plan : Sets, draw : Nat] /\ done[i] \in Seq([plan : Sets, draw : Nat]) /\ drawn[i] = Len(done[i]) /\ drawn[i] \in Nat
  BY DEF Inv
<1>4. done'[i] = Append(done[i], x) /\ drawn'[i] = drawn[i] + 1 /\ \A m \in Inst : m # i => done'[m] = done[m] /\ drawn'[m] = drawn[m]
  BY <1>2 DEF Inv
<1> HIDE DEF x
<1>5. Append(done[i], x) \in Seq([plan : Sets, draw : Nat]) /\ Len(Append(done[i], x)) = Len(done[i]) + 1
      /\ \A k \in 1..(Len(done[i]) + 1) : Append(done[i], x)[k] = IF k = Len(done[i]) + 1 THEN x ELSE done[i][k]
  BY <1>3
<1>6. \A k \in 1..Len(done'[i]) : done'[i][k] = [plan |-> Par[i], draw |-> k]
  BY <1>3, <1>4, <1>5 DEF Inv, AsAlone, x
<1>7. AsAlone' /\ \A m \in Inst : drawn'[m] = Len(done'[m])
  BY <1>3, <1>4, <1>5, <1>6 DEF Inv, AsAlone
<1>8. drawn' \in [Inst -> Nat] /\ done' \in [Inst -> Seq([plan : Sets, draw : Nat])]
  BY <1>2, <1>3, <1>5 DEF Inv, x
<1> QED BY <1>1, <1>7, <1>8 DEF Inv
THEOREM Spec => []AsAlone
<1>1. Inv /\ [Next]_tvars => Inv'
  <2>1. CASE UNCHANGED tvars
    BY <2>1 DEF Inv, AsAlone, tvars
  <2> QED BY <2>1, TakeInv, ComputeInv DEF Next
<1>2. Inv => AsAlone
  BY DEF Inv
<1> QED BY InitInv, <1>1, <1>2, PTL DEF Spec
===============================================================================
