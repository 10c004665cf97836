----------------------------- MODULE ParamEnv19 -----------------------------
(* Draws valid parameter sets, with a bias to the corners: one level, odd    *)
(* and even level counts, all decompositions different, close to the margin. *)
EXTENDS ParamSpace, Json
CONSTANTS Kind, MinK, MaxK, Cols, Acc
VARIABLE hist
Some(X) == RandomElement(X)
Decs == {<<b, l>> \in (1..32) \X (1..24) : b * l <= 60 /\ b * l >= 8}
Neat == {d \in Decs : d[1] \in 2..16}
Styles == {"any", "neg1", "ks1", "odd", "even", "distinct", "coarse", "any"}
Ok(p) == IF Kind = "tree" THEN TreeValid(p, Acc) ELSE OramValid(p, Cols, Acc)
Shape(p, style) ==
  CASE style = "neg1" -> p.neg[2] = 1
    [] style = "ks1" -> p.ks[2] = 1
    [] style = "odd" -> p.sel[2] % 2 = 1 /\ p.neg[2] % 2 = 1 /\ p.ks[2] % 2 = 1
    [] style = "even" -> p.sel[2] % 2 = 0 /\ p.neg[2] % 2 = 0 /\ p.ks[2] % 2 = 0
    [] style = "distinct" -> Cardinality({p.sel[1], p.neg[1], p.ks[1]}) = 3 /\ Cardinality({p.sel[2], p.neg[2], p.ks[2]}) = 3
    [] style = "coarse" -> p.sel[2] <= 4
    [] OTHER -> TRUE
\* a few candidates for each decomposition, then one valid combination of the asked shape
Draw(n, X) == {Some(X) : i \in 1..n}
Init == hist = <<>>
Next == /\ hist = <<>>
        /\ \E k \in {Some(MinK..MaxK)}, sg \in {Some({2, 4, 7, 9, 9})}, lt \in {Some({1, 1, 2, 3, 4, 6, 8, 11, 16})}, style \in {Some(Styles)} :
           \E sels \in {Neat}, negs \in {{Some(IF style = "neg1" THEN {d \in Decs : d[2] = 1} ELSE Decs) : i \in 1..12}},
              kss \in {{Some(IF style = "ks1" THEN {d \in Decs : d[2] = 1} ELSE Decs) : i \in 1..8}} :
           \E good \in {{p \in {[k |-> k, sg |-> sg, lt |-> lt, sel |-> s, ks |-> x, neg |-> g] : s \in sels, x \in kss, g \in negs} : Ok(p) /\ Shape(p, style)}} :
             /\ good # {}
             /\ \E p \in {Some(good)} : hist' = <<[p |-> p, style |-> style, err |-> IF Kind = "tree" THEN TreeError(p, Acc) ELSE OramError(p, Cols, Acc)]>>
Spec == Init /\ [][Next]_hist
Printed == IF Len(hist) = 1 THEN PrintT("@@" \o ToJson(hist[1])) ELSE TRUE
=============================================================================
