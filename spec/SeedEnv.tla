------------------------------ MODULE SeedEnv -------------------------------
(* Programs over one kind of context: calls in any order.  The driver runs   *)
(* each program on several contexts, interleaved, and in several processes.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist
Fs == {"rlwesk", "lwesk", "enc", "raw", "tern", "gsw", "neg", "ksk", "lwe", "pt", "binary", "ternary", "scalar", "subs", "subsf", "bits", "feat", "l2r", "negsk", "qread", "qwrite", "dummy"}
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E f \in {RandomElement(Fs)}, v \in {RandomElement(0..3)} :
          \* often the same call again
          hist' = Append(hist, IF hist # <<>> /\ RandomElement(1..3) = 1 THEN hist[Len(hist)] ELSE [c |-> "call", f |-> f, v |-> v])
Spec == Init /\ [][Next]_hist
Printed == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
=============================================================================
