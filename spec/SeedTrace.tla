----------------------------- MODULE SeedTrace ------------------------------
(* Is a recorded run over several real contexts, possibly of several         *)
(* processes, a behaviour of Seed?  The log of Seed is kept in two parts:    *)
(* what was drawn so far, and what each history of insecure calls gave -- for   *)
(* what passed the floating-point transform, gave in the one process.        *)
EXTENDS Seed, TraceBase
VARIABLES l, diag, ctx, keys, masks, gave, near
tvars == <<l, diag, ctx, keys, masks, gave, near>>
E == Trace[l]
OK == E.out = "ok"
Masks == E.masks \o E.parts
\* the pairwise conditions Apart and Single of Seed, against all that was drawn
Distinct(s) == Cardinality(Range(s)) = Len(s)
Judge(c) ==
  IF c.secure THEN Obs("shared", Range(E.key) \cap keys = {} /\ Range(Masks) \cap masks = {}) \cup Obs("repeated", Distinct(E.key) /\ Distinct(Masks))
  ELSE LET k == <<c.par, c.hist>>
           p == <<c.par, c.hist, E.proc>>
       IN Obs("reproducible", k \in DOMAIN gave => gave[k] = <<E.key, E.masks, E.all>>) \cup Obs("reproducible", p \in DOMAIN near => near[p] = E.near)
Log(c) ==
  /\ keys' = keys \cup Range(E.key) /\ masks' = masks \cup Range(Masks)
  /\ gave' = LET k == <<c.par, c.hist>> IN IF c.secure \/ k \in DOMAIN gave THEN gave ELSE (k :> <<E.key, E.masks, E.all>>) @@ gave
  /\ near' = LET p == <<c.par, c.hist, E.proc>> IN IF c.secure \/ E.near = "" \/ p \in DOMAIN near THEN near ELSE (p :> E.near) @@ near
Drawn(f) == CASE f \in {"rlwesk", "lwesk"} -> Len(E.key) = 1 [] f \in {"enc", "raw", "tern"} -> Len(E.masks) = 1 [] f \in {"gsw", "neg", "ksk", "subs", "bits", "feat"} -> Len(E.masks) > 1
            [] f = "many" -> Len(E.masks) = E.v [] OTHER -> TRUE
Made(c, more) ==
  /\ ctx' = (E.x :> c) @@ ctx
  /\ IF OK THEN Log(c) /\ diag' = Judge(c) \cup more ELSE UNCHANGED <<keys, masks, gave, near>> /\ diag' = {"refused"}
\* many contexts made at one moment on several threads, each with one key and one encryption
Rush ==
  IF ~OK THEN diag' = {"refused"} /\ UNCHANGED <<ctx, keys, masks, gave, near>>
  ELSE /\ UNCHANGED <<ctx, near>>
       /\ LET made == <<E.par, <<<<"ctx", 0>>>>>>
          IN IF E.secure
             THEN /\ keys' = keys \cup Range(E.key) /\ masks' = masks \cup Range(Masks) /\ UNCHANGED gave
                  /\ diag' = Obs("shared", Range(E.key) \cap keys = {} /\ Range(Masks) \cap masks = {})
                              \cup Obs("repeated", Distinct(E.key) /\ Distinct(Masks)) \cup Obs("drawn", Len(E.key) = E.v /\ Len(E.masks) = E.v)
             ELSE /\ UNCHANGED <<keys, masks, gave>>
                  /\ diag' = Obs("reproducible", Cardinality(Range(E.key)) = 1 /\ Cardinality(Range(E.masks)) = 1)
                              \cup Obs("reproducible", made \in DOMAIN gave => gave[made][1] = <<E.key[1]>>) \cup Obs("drawn", Len(E.key) = E.v /\ Len(E.masks) = E.v)
Step ==
  CASE E.ev = "rush" -> Rush
    [] E.ev = "begin" -> ctx' = <<>> /\ keys' = {} /\ masks' = {} /\ gave' = <<>> /\ near' = <<>> /\ diag' = {}
    [] E.ev \in {"ctx", "client"} -> Made([par |-> E.par, secure |-> E.secure, hist |-> <<<<E.ev, 0>>>>], {})
    [] E.ev = "call" ->
         LET c == ctx[E.x]
         IN Made(IF c.secure THEN c ELSE [c EXCEPT !.hist = Append(@, <<E.f, E.v>>)], Obs("drawn", Drawn(E.f)))
TraceInit == l = 1 /\ diag = {} /\ ctx = <<>> /\ keys = {} /\ masks = {} /\ gave = <<>> /\ near = <<>>
TraceNext == l <= TraceLen /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == diag = {}
=============================================================================
