------------------------------- MODULE Params -------------------------------
(* The experiment driver (src/params.rs, src/cli.rs, src/main.rs): where its *)
(* configurations come from, in which order they are run, and what it prints.*)
(* A parameter file is a list of groups, a group a pair of lists: access     *)
(* modes and cryptographic settings.  Configurations are the products of the *)
(* two lists of each group, group after group, the mode in the outer loop.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* an access mode: m = 0 single (a items), 1 multi (a items, b queries), 2 batched (a rows, b columns)
\* a cryptographic setting: strings and numbers as they are shown; lt = log2 of the plaintext modulus;
\* broken = 1 if its noise is so large that nothing decrypts, 2 if it is so large that the table cannot be read for long
DefaultOram == [m |-> 2, a |-> 384, b |-> 16, it |-> 1]
DefaultTfhe == [std |-> "-55", n |-> 2048, bl |-> 5, lv |-> 9, kbl |-> 5, klv |-> 11, nbl |-> 5, nlv |-> 11,
                lt |-> 8, ss |-> "true", broken |-> 0]
DefaultList == << [orams |-> <<DefaultOram>>, tfhes |-> <<DefaultTfhe>>] >>
Config(o, t) == [oram |-> o, tfhe |-> t]

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Product(os, ts) == Concat([i \in DOMAIN os |-> [j \in DOMAIN ts |-> Config(os[i], ts[j])]])
Expand(list) == Concat([g \in DOMAIN list |-> Product(list[g].orams, list[g].tfhes)])

\* the same, said by positions: configuration number k of a group is (k div |tfhes|, k mod |tfhes|)
SizeOf(g) == Len(g.orams) * Len(g.tfhes)
RECURSIVE Before(_, _)
Before(list, g) == IF g = 1 THEN 0 ELSE Before(list, g - 1) + SizeOf(list[g - 1])
ExactlyOrdered(list, out) ==
  /\ Len(out) = Before(list, Len(list) + 1)
  /\ \A g \in DOMAIN list : \A i \in DOMAIN list[g].orams, j \in DOMAIN list[g].tfhes :
       out[Before(list, g) + (i - 1) * Len(list[g].tfhes) + j] = Config(list[g].orams[i], list[g].tfhes[j])

\* command-line values: flags that were given over the documented defaults
CliDefault == [mode |-> 2, item_count |-> 4096, query_count |-> 1, rows |-> 96, cols |-> 64]
CliOram(x) == CASE x.mode = 0 -> [m |-> 0, a |-> x.item_count, b |-> 0, it |-> 1]
                [] x.mode = 1 -> [m |-> 1, a |-> x.item_count, b |-> x.query_count, it |-> 1]
                [] OTHER -> [m |-> 2, a |-> x.rows, b |-> x.cols, it |-> 1]

\* in: [file |-> "absent" | "bad" | "ok", list, cli (a mode's values), tfhe (cryptographic values), dry]
Plan(in) == CASE in.file = "absent" -> <<Config(CliOram(in.cli), in.tfhe)>>
              [] in.file = "bad" -> Expand(DefaultList)
              [] in.file = "ok" -> Expand(in.list)

----------------------------------------------------------------------------
(* What is printed.                                                          *)
Columns == {"standard_deviation", "polynomial_size", "base_log", "level_count", "key_switch_base_log",
  "key_switch_level_count", "negs_base_log", "negs_level_count", "plaintext_modulus", "secure_seed", "mode",
  "item_count", "query_count", "rows", "cols", "n", "setup_duration", "server_duration", "response_duration",
  "final_noise"}
RECURSIVE FloorLog(_)
FloorLog(x) == IF x <= 1 THEN 0 ELSE 1 + FloorLog(x \div 2)
IsPow2(x) == x >= 1 /\ x = (LET RECURSIVE P(_)
                                P(k) == IF k = 0 THEN 1 ELSE 2 * P(k - 1) IN P(FloorLog(x)))
Replicas == 3
ItemsOf(o) == IF o.m = 2 THEN (o.a * o.b) \div Replicas ELSE o.a
S(x) == ToString(x)
Row(cfg, dry) ==
  LET o == cfg.oram  t == cfg.tfhe  x == IF dry THEN "-" ELSE "num" IN
  [standard_deviation |-> t.std, polynomial_size |-> S(t.n), base_log |-> S(t.bl), level_count |-> S(t.lv),
   key_switch_base_log |-> S(t.kbl), key_switch_level_count |-> S(t.klv),
   negs_base_log |-> S(t.nbl), negs_level_count |-> S(t.nlv),
   plaintext_modulus |-> "2^" \o S(t.lt), secure_seed |-> t.ss,
   mode |-> S(o.m), item_count |-> S(ItemsOf(o)), query_count |-> IF o.m = 1 THEN S(o.b) ELSE "-",
   rows |-> IF o.m = 2 THEN S(o.a) ELSE "-", cols |-> IF o.m = 2 THEN S(o.b) ELSE "-",
   n |-> "2^" \o S(FloorLog(ItemsOf(o))),
   setup_duration |-> x, server_duration |-> x, response_duration |-> x, final_noise |-> x]
\* a configuration whose results cannot be verified: no row is reported for it and the run stops there
Verifiable(cfg) ==
  LET o == cfg.oram IN
  /\ cfg.tfhe.broken # 1
  /\ CASE o.m = 0 -> IsPow2(o.a) [] o.m = 1 -> IsPow2(o.a) /\ o.b < o.a [] OTHER -> IsPow2(o.b)
\* the first iteration can be verified and some later one cannot: the run stops at that one
Wears(cfg) == cfg.tfhe.broken = 2 /\ cfg.oram.it > 1
\* iterations after the first report one comment line each, in a real run
Extra(cfg, dry) == IF dry THEN <<>> ELSE [k \in 1..(cfg.oram.it - 1) |-> [mode |-> cfg.oram.m, iter |-> k]]

----------------------------------------------------------------------------
(* The driver as a machine.                                                  *)
VARIABLES in, plan, k, it, out, status
pvars == <<in, plan, k, it, out, status>>
\* out: [header, rows, extra] where extra[k] = the comment lines after row k
Empty == [header |-> 0, rows |-> <<>>, extra |-> <<>>]
Start(i) == /\ in = i /\ plan = Plan(i) /\ k = 1 /\ it = 0 /\ out = Empty /\ status = "start"
Header == status = "start" /\ status' = "run" /\ out' = [out EXCEPT !.header = 1] /\ UNCHANGED <<in, plan, k, it>>
RunFirst ==
  /\ status = "run" /\ k <= Len(plan) /\ it = 0
  /\ IF in.dry = 1 \/ Verifiable(plan[k])
     THEN /\ out' = [out EXCEPT !.rows = Append(@, Row(plan[k], in.dry = 1)), !.extra = Append(@, <<>>)]
          /\ it' = 1 /\ UNCHANGED status
     ELSE status' = "failed" /\ UNCHANGED <<out, it>>
  /\ UNCHANGED <<in, plan, k>>
RunMore ==
  /\ status = "run" /\ k <= Len(plan) /\ it >= 1
  /\ \/ in.dry = 0 /\ Wears(plan[k]) /\ status' = "failed" /\ UNCHANGED <<out, it, k>>
     \/ /\ status' = status
        /\ in.dry = 0 /\ it < plan[k].oram.it
        /\ Wears(plan[k]) => it < plan[k].oram.it - 1
        /\ out' = [out EXCEPT !.extra[k] = Append(@, [mode |-> plan[k].oram.m, iter |-> it])]
        /\ it' = it + 1 /\ UNCHANGED k
     \/ /\ status' = status
        /\ in.dry = 1 \/ (it = plan[k].oram.it /\ ~Wears(plan[k]))
        /\ k' = k + 1 /\ it' = 0 /\ UNCHANGED out
  /\ UNCHANGED <<in, plan>>
Stop == /\ status = "run" /\ k > Len(plan) /\ status' = "ok" /\ UNCHANGED <<in, plan, k, it, out>>
Next == Header \/ RunFirst \/ RunMore \/ Stop

----------------------------------------------------------------------------
(* What a user relies on, in closed form.                                    *)
Fine(c) == Verifiable(c) /\ ~Wears(c)
FirstBad(i, p) == IF i.dry = 1 \/ \A x \in DOMAIN p : Fine(p[x]) THEN Len(p) + 1
                  ELSE CHOOSE x \in DOMAIN p : ~Fine(p[x]) /\ \A y \in 1..(x - 1) : Fine(p[y])
Report(i) ==
  LET p == Plan(i)
      b == FirstBad(i, p)
      \* a configuration which wears out is reported until then
      n == IF b <= Len(p) /\ Verifiable(p[b]) THEN b ELSE b - 1
  IN [header |-> 1, rows |-> [x \in 1..n |-> Row(p[x], i.dry = 1)], extra |-> [x \in 1..n |-> Extra(p[x], i.dry = 1)],
      worn |-> IF n = b THEN 1 ELSE 0, ok |-> IF b > Len(p) THEN 1 ELSE 0]
\* the iterations reported for each row: all of them, except of one which wore out
ExtraOK(r, extra) ==
  IF r.worn = 0 THEN extra = r.extra
  ELSE LET n == Len(r.extra) IN
       /\ Len(extra) = n
       /\ \A x \in 1..(n - 1) : extra[x] = r.extra[x]
       /\ Len(extra[n]) < Len(r.extra[n]) /\ extra[n] = SubSeq(r.extra[n], 1, Len(extra[n]))
Finished == status \in {"ok", "failed"}
C18Report == Finished => LET r == Report(in) IN
               /\ out.header = r.header /\ out.rows = r.rows /\ ExtraOK(r, out.extra)
               /\ (status = "ok") = (r.ok = 1)
C18Expand == in.file = "ok" => ExactlyOrdered(in.list, Expand(in.list))
C18OneRowEach == (status = "ok") => Len(out.rows) = Len(plan)
C18Columns == \A x \in DOMAIN out.rows : DOMAIN out.rows[x] = Columns
C18NoUnverified == in.dry = 0 => \A x \in DOMAIN out.rows : Verifiable(plan[x])
=============================================================================
