----------------------------- MODULE HomImplMC -----------------------------
(* Every computation of HomImpl refines the contract of HomReg: decrypting   *)
(* the computed ciphertext gives the plaintext operation's result.  All      *)
(* keys, all messages of the chosen set, several mask seeds, all arguments.  *)
EXTENDS HomImpl, TLC
CONSTANTS Seeds, Msgs2, Ops
VARIABLES op, sk, sk2, m, m2, arg, seed, ok
vars == <<op, sk, sk2, m, m2, arg, seed, ok>>

Bits == [1..N -> {0, 1}]
Messages == IF N = 2 THEN [1..N -> 0..(T - 1)]
            ELSE {PMono(N, d, c) : d \in 0..(N - 1), c \in {1, T - 1}} \cup {[k \in 1..N |-> k % T], [k \in 1..N |-> T - 1], [k \in 1..N |-> (T \div 2) * (k % 2)]}
Seconds == IF Msgs2 = 1 THEN {[k \in 1..N |-> (3 * k) % T]} ELSE {[k \in 1..N |-> (3 * k) % T], PZero(N), [k \in 1..N |-> T - 1]}
Odd == {2 * k + 1 : k \in 0..(N - 1)}
Args == CASE op = "subs" -> Odd
          [] op \in {"leq", "eq", "extract"} -> 0..(N - 1)
          [] op = "pack" -> 0..(N - 1)
          [] op \in {"expand", "cmux"} -> {0, 1}
          [] op = "div" -> 0..(2 * N)
          [] OTHER -> {0}

C1 == EncAt(sk, Encode(m), seed, 1)
C2 == EncAt(sk, Encode(m2), seed, 2)
Old == EncAt(sk2, Encode(m), seed, 3)
Result ==
  CASE op = "add" -> Dec(sk, CAdd(C1, C2)) = PAdd(T, m, m2)
    [] op = "sub" -> Dec(sk, CSub(C1, C2)) = PSub(T, m, m2)
    [] op = "mul" -> Dec(sk, CMul(C1, [k \in 1..N |-> (k % 3) - 1])) = PMul(T, [k \in 1..N |-> (k % 3) - 1], m)
    [] op = "div" -> Dec(sk, Ct(PDiv(Q, C1.a, arg), PDiv(Q, C1.b, arg))) = PDiv(T, m, arg)
    [] op = "ext" -> \A g \in {PConst(N, 1), PMono(N, N - 1, 1), [k \in 1..N |-> 0 - sk[k]], PZero(N)} :
                       Dec(sk, ExtProd(Gsw(sk, g, seed), C1)) = PMul(T, PMod(T, g), m)
    [] op = "cmux" -> Dec(sk, CMux(Gsw(sk, PConst(N, arg), seed), C1, C2)) = IF arg = 1 THEN m2 ELSE m
    [] op = "ksw" -> Dec(sk, KeySwitch(Ksk(sk2, sk, seed), Old)) = m
    [] op = "kswg" -> Dec(sk, ExtProd(KskAsGsw(Ksk(sk2, sk, seed)), Old)) = m
    [] op = "subs" -> Dec(sk, SubsCt(sk, arg, C1, seed)) = PSubs(T, m, arg)
    [] op = "trace" -> Dec(sk, TraceCt(sk, C1, seed)) = PTrace(T, m)
    [] op = "extract" -> Decode(<<LPhase(sk, Extract(C1, arg))>>)[1] = m[arg + 1]
    [] op = "pack" -> Dec(sk, Pack(sk, Extract(C1, arg), seed)) = PConst(N, m[arg + 1])
    [] op = "expand" -> Dec(sk, ExtProd(Expand(sk, arg, 0, seed), C1)) = PScale(T, arg, m)
    [] op = "leq" -> \A e \in 0..(N - 1) : Dec(sk, CMul(EncAt(sk, Encode(PMono(N, e, 1)), seed, 7), LeqPoly(arg)))[1] = IF e <= arg THEN 1 ELSE 0
    [] op = "eq" -> \A e \in 0..(N - 1) : Dec(sk, CMul(EncAt(sk, Encode(PMono(N, e, 1)), seed, 7), EqPoly(arg)))[1] = IF e = arg THEN 1 ELSE 0

Init ==
  /\ op \in Ops /\ sk \in Bits /\ seed \in Seeds /\ arg \in Args
  /\ m \in (IF op \in {"leq", "eq"} THEN {PZero(N)} ELSE Messages)
  /\ m2 \in (IF op \in {"add", "sub", "cmux"} THEN Seconds ELSE {PZero(N)})
  /\ sk2 \in (IF op \in {"ksw", "kswg"} THEN Bits ELSE {PZero(N)})
  /\ ok = 0
\* the computation is a step, so that workers share it
Next == ok = 0 /\ ok' = (IF Result THEN 1 ELSE 2) /\ UNCHANGED <<op, sk, sk2, m, m2, arg, seed>>
Spec == Init /\ [][Next]_vars
Refines == ok # 2
=============================================================================
