---------------------------- MODULE TogetherEnv -----------------------------
(* Orders in which instances of a process are used in turns: each step names *)
(* the instance which moves; sometimes one makes several steps in a row.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Lanes, Depth
VARIABLES hist
Some(X) == RandomElement(X)
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E w \in {Some(0..(Lanes - 1))}, again \in {Some(1..3)} :
             hist' = Append(hist, IF hist # <<>> /\ again = 1 THEN hist[Len(hist)] ELSE w)
Spec == Init /\ [][Next]_hist
Printed == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
=============================================================================
