-------------------------------- MODULE Seed --------------------------------
(* Randomness of contexts: src/context.rs.  A log entry is one call on one   *)
(* context: what the context was made with, whether its seeding is secure,   *)
(* the calls made on it so far (this one included), the fingerprints of the  *)
(* keys and masks the call drew, and of everything it produced.              *)
EXTENDS Integers, Sequences, FiniteSets

\* insecure seeding: the same calls from the same parameters produce the same
Agrees(a, b) == (~a.secure /\ ~b.secure /\ a.par = b.par /\ a.hist = b.hist) => a.keys = b.keys /\ a.masks = b.masks /\ a.all = b.all
Range(s) == {s[i] : i \in DOMAIN s}
\* secure seeding: nothing secret and no mask is ever drawn again
Apart(a, b) == a.secure /\ b.secure => Range(a.keys) \cap Range(b.keys) = {} /\ Range(a.masks) \cap Range(b.masks) = {}
Single(a) == a.secure => Cardinality(Range(a.keys)) = Len(a.keys) /\ Cardinality(Range(a.masks)) = Len(a.masks)
=============================================================================
