------------------------------- MODULE SeedMC -------------------------------
(* Contexts over generators: a seed, and a position in the stream it gives.  *)
(* Two streams, for secrets and for masks.  Variants: secure seeds from a    *)
(* coarse clock; one position shared by all contexts; a stream that starts   *)
(* again with every call; insecure contexts with a seed of their own.        *)
EXTENDS Seed, TLC
CONSTANTS Variant, MaxCtx, MaxCalls
VARIABLES ctx, log, fresh, clock
vars == <<ctx, log, fresh, clock>>
Pars == {"p", "q"}
Calls == {"key", "enc", "rows"}
Zero == 0
Draw(seed, from, n) == [i \in 1..n |-> <<seed, from + i>>]
Init == ctx = <<>> /\ log = {} /\ fresh = 1 /\ clock = 1
SeedOf(sec) == IF ~sec THEN (IF Variant = "random" THEN fresh ELSE Zero) ELSE IF Variant = "clock" THEN 100 + clock ELSE 100 + fresh
Create(par, sec) ==
  /\ Len(ctx) < MaxCtx
  /\ LET c == [par |-> par, secure |-> sec, seed |-> SeedOf(sec), sk |-> 1, en |-> 0, hist |-> <<"new">>]
     IN /\ ctx' = Append(ctx, c)
        /\ log' = log \cup {[par |-> par, secure |-> sec, hist |-> c.hist, keys |-> Draw(<<"s", c.seed>>, 0, 1), masks |-> <<>>, all |-> <<c.seed, 0>>, x |-> Len(ctx) + 1]}
  /\ fresh' = fresh + 1 /\ UNCHANGED clock
Call(x, f) ==
  LET c == ctx[x]
      nk == IF f = "key" THEN 1 ELSE 0
      nm == CASE f = "enc" -> 1 [] f = "rows" -> 2 [] OTHER -> 0
      pos == IF Variant = "shared" /\ ~c.secure THEN Cardinality(log) ELSE IF Variant = "restart" THEN 0 ELSE c.en
      h == Append(c.hist, f)
  IN /\ Len(c.hist) < MaxCalls
     /\ ctx' = [ctx EXCEPT ![x] = [c EXCEPT !.sk = @ + nk, !.en = @ + nm, !.hist = h]]
     /\ log' = log \cup {[par |-> c.par, secure |-> c.secure, hist |-> h, keys |-> Draw(<<"s", c.seed>>, c.sk, nk), masks |-> Draw(<<"e", c.seed>>, pos, nm), all |-> <<c.seed, c.sk, pos>>, x |-> x]}
     /\ UNCHANGED <<fresh, clock>>
Tick == clock < 2 /\ clock' = 2 /\ UNCHANGED <<ctx, log, fresh>>
Next == \/ \E p \in Pars, s \in BOOLEAN : Create(p, s)
        \/ \E x \in DOMAIN ctx, f \in Calls : Call(x, f)
        \/ Tick
Spec == Init /\ [][Next]_vars
Reproducible == \A a, b \in log : Agrees(a, b)
Fresh == \A a, b \in log : (a # b => Apart(a, b)) /\ Single(a)
=============================================================================
