------------------------------- MODULE Wiring -------------------------------
(* Which decomposition goes where.  A parameter set holds three              *)
(* decompositions <<base log, levels>>: one for the selectors, one for the   *)
(* encrypted negated key (which turns the client's half selectors into full  *)
(* ones), one for key switching (substitution keys, the key that takes       *)
(* scalars to ring ciphertexts).  A gadget ciphertext of each role is shaped *)
(* (number of rows), filled (scale of each row) and consumed (digits of the  *)
(* operand) by places far apart in the code, which must agree.  Values live  *)
(* modulo 2^W, in a ring of degree one, without errors: only wiring is left. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, Wire, Space
VARIABLE p

Q == 2^W
Roles == {"sel", "neg", "ks"}
Decs == {d \in (1..W) \X (1..W) : d[1] * d[2] = W}
Init == IF Space = "equal" THEN p \in {[r \in Roles |-> d] : d \in Decs} ELSE p \in [Roles -> Decs]
Next == UNCHANGED p
Spec == Init /\ [][Next]_p

\* where each place takes its decomposition from, <<base log, levels>> each
Own(role) == <<p[role][1], p[role][2]>>
Shape(role) == IF Wire = "kslevelsel" /\ role = "ks" THEN p.sel[2]
               ELSE IF Wire = "neglevelks" /\ role = "neg" THEN p.ks[2] ELSE p[role][2]
FillBase(role) == IF Wire = "fillctx" /\ role = "neg" THEN p.sel[1]
                  ELSE IF Wire = "fillks" /\ role = "ks" THEN p.sel[1] ELSE p[role][1]
Consume(role) == IF Wire = "consumesel" /\ role = "neg" THEN Own("sel")
                 ELSE IF Wire = "consumeneg" /\ role = "sel" THEN Own("neg")
                 ELSE IF Wire = "lwesel" /\ role = "ks" THEN Own("sel")
                 ELSE IF Wire = "truncneg" /\ role = "neg" THEN <<p.neg[1], p.sel[2]>> ELSE Own(role)

\* signed digits of x, the most significant first
RECURSIVE Low(_, _, _)
Low(x, b, l) == IF l = 0 THEN <<>>
                ELSE LET d == x % 2^b
                         s == IF d >= 2^(b - 1) THEN d - 2^b ELSE d
                     IN Append(Low((x - s) \div 2^b, b, l - 1), s)
Digits(x, dec) == LET drop == W - dec[1] * dec[2]
                  IN IF drop < 0 THEN [i \in 1..dec[2] |-> 0] ELSE Low(x \div 2^drop, dec[1], dec[2])
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Scale(base, i) == IF base * i > W THEN 0 ELSE 2^(W - base * i)
Min2(a, b) == IF a < b THEN a ELSE b
\* the phase of a gadget product: operand x, the gadget holds the value m
Gadget(x, m, role) == LET dg == Digits(x, Consume(role))
                          n == Min2(Shape(role), Len(dg))
                      IN Sum([i \in 1..n |-> dg[i] * m * Scale(FillBase(role), i)], n) % Q

\* 1. key switching: <<a, b>> under the key s1 is brought under another
Switch(a, b, s1) == (b - Gadget(a, s1, "ks")) % Q
\* 2. the server completes a selector: row i of the first half times the negated key
Row(bit, i) == (bit * Scale(FillBase("sel"), i)) % Q
KeyRow(bit, i, s) == Gadget(Row(bit, i), -s, "neg")
\* 3. and multiplies a cell <<a, b>> by it
Select(a, b, bit, s) == LET da == Digits(a, Consume("sel"))
                            db == Digits(b, Consume("sel"))
                            n == Min2(Shape("sel"), Len(da))
                        IN (Sum([i \in 1..n |-> da[i] * KeyRow(bit, i, s) + db[i] * Row(bit, i)], n)) % Q

Operands == {0, 1, Q \div 2, Q - 1, Q \div 3, (Q * 5) \div 7, 2^(W \div 2) + 3, (Q \div 4) * 3 + 1}
WiredKs == \A a \in Operands, s \in {0, 1} : Switch(a, 5, s) = (5 - a * s) % Q
WiredSelect == \A a \in Operands, b \in {3, Q \div 2}, bit \in {0, 1}, s \in {0, 1} : Select(a, b, bit, s) = (bit * (b - a * s)) % Q
C19Wiring == WiredKs /\ WiredSelect
=============================================================================
