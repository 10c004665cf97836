------------------------------ MODULE ParamsMC ------------------------------
(* All inputs of a small scope, and deviations of the expansion which must   *)
(* be rejected.                                                              *)
EXTENDS Params
CONSTANTS MaxGroups, MaxLen, Design
O == {[m |-> 0, a |-> 4, b |-> 0, it |-> 1], [m |-> 1, a |-> 4, b |-> 5, it |-> 2], [m |-> 2, a |-> 3, b |-> 4, it |-> 3]}
Th == {[DefaultTfhe EXCEPT !.bl = 6], [DefaultTfhe EXCEPT !.broken = 1], [DefaultTfhe EXCEPT !.broken = 2]}
Seqs(X) == UNION {[1..n -> X] : n \in 0..MaxLen}
Groups == {[orams |-> o, tfhes |-> t] : o \in Seqs(O), t \in Seqs(Th)}
Lists == UNION {[1..n -> Groups] : n \in 0..MaxGroups}
Inputs == {[file |-> "ok", list |-> l, cli |-> CliDefault, tfhe |-> DefaultTfhe, dry |-> d] : l \in Lists, d \in 0..1}
     \cup {[file |-> f, list |-> <<>>, cli |-> [CliDefault EXCEPT !.mode = m], tfhe |-> t, dry |-> d]
              : f \in {"absent", "bad"}, m \in 0..3, t \in Th, d \in 0..1}
\* deviations
Inner(os, ts) == Concat([j \in DOMAIN ts |-> [i \in DOMAIN os |-> Config(os[i], ts[j])]])
Zip(os, ts) == [i \in 1..(IF Len(os) < Len(ts) THEN Len(os) ELSE Len(ts)) |-> Config(os[i], ts[i])]
Merged(list) == Product(Concat([g \in DOMAIN list |-> list[g].orams]), Concat([g \in DOMAIN list |-> list[g].tfhes]))
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>> ELSE LET r == Dedup(Tail(s)) IN IF \E x \in DOMAIN r : r[x] = Head(s) THEN r ELSE <<Head(s)>> \o r
Deviant(i) ==
  IF i.file = "ok" THEN
    CASE Design = "inner" -> Concat([g \in DOMAIN i.list |-> Inner(i.list[g].orams, i.list[g].tfhes)])
      [] Design = "zip" -> Concat([g \in DOMAIN i.list |-> Zip(i.list[g].orams, i.list[g].tfhes)])
      [] Design = "merged" -> Merged(i.list)
      [] Design = "dedup" -> Dedup(Expand(i.list))
      [] OTHER -> Plan(i)
  ELSE IF i.file = "bad" /\ Design = "badcli" THEN <<Config(CliOram(i.cli), i.tfhe)>>
  ELSE Plan(i)
Init == /\ in \in Inputs /\ plan = Deviant(in) /\ k = 1 /\ it = 0 /\ out = Empty /\ status = "start"
Spec == Init /\ [][Next]_pvars /\ WF_pvars(Next)
Ends == <>Finished
=============================================================================
