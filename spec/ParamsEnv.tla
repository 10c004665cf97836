------------------------------ MODULE ParamsEnv ------------------------------
(* Inputs of the experiment driver: parameter files and command lines.       *)
EXTENDS Params, Json, Randomization
CONSTANTS Real   \* TRUE: small configurations which are really run
VARIABLE hist
evars == <<pvars, hist>>
Some(X) == RandomElement(X)
RealDec == {<<4, 10>>, <<5, 9>>, <<6, 8>>, <<7, 7>>, <<4, 12>>, <<5, 10>>}
AnyDec == {<<a, b>> : a \in 1..12, b \in 1..13}
Stds == {"-55", "-60", "-57.5", "-56.25"}
Dec == IF Real THEN RealDec ELSE AnyDec
OramOf(m, x, y, its) ==
  CASE m = 0 -> [m |-> 0, a |-> x, b |-> 0, it |-> its]
    [] m = 1 -> [m |-> 1, a |-> x, b |-> y, it |-> its]
    [] OTHER -> [m |-> 2, a |-> y, b |-> x, it |-> its]
Rows == IF Real THEN {12, 24} ELSE {3, 6, 12, 24, 96, 384}
Counts == IF Real THEN {2, 4, 8} ELSE {1, 2, 4, 16, 64, 256, 4096, 65536, 1048576}
\* a random choice is bound by a quantifier, so that it is made once
The(X) == CHOOSE e \in X : TRUE
Xs(m, good) == IF Real /\ m = 2 THEN {2, 4} ELSE IF ~good /\ m = 0 THEN Counts \cup {6, 12} ELSE Counts
Ys(m, x, good) == IF m = 2 THEN Rows ELSE IF Real THEN 1..(IF good THEN (IF x = 2 THEN 1 ELSE 3) ELSE 9) ELSE 1..40
RandOram(good) ==
  The(UNION {UNION {{OramOf(m, x, y, its) : y \in {Some(Ys(m, x, good))}, its \in {Some(1..4)}}
                    : x \in {Some(Xs(m, good))}} : m \in {Some(0..2)}})
RandTfhe(good) ==
  The({[std |-> std, n |-> n, bl |-> d[1], lv |-> d[2], kbl |-> kd[1], klv |-> kd[2], nbl |-> nd[1], nlv |-> nd[2],
        lt |-> lt, ss |-> ss, broken |-> 0]
       : d \in {Some(Dec)}, kd \in {Some(Dec)}, nd \in {Some(Dec)},
         std \in {IF good \/ ~Real THEN Some(Stds) ELSE Some({"-55", "-1", "-2"})},
         n \in {Some(IF Real THEN {8, 16, 32, 64} ELSE {256, 512, 1024, 2048, 4096, 8192})},
         lt \in {Some(IF Real THEN 1..4 ELSE 1..60)}, ss \in {Some({"true", "true", "false"})}})
\* noise beyond the margin: on enough coefficients that nothing decrypts by luck
Mark(t) == IF t.std \in {"-1", "-2"} THEN [t EXCEPT !.broken = 1, !.n = 64, !.lt = 4] ELSE t
\* n draws
RECURSIVE Orams(_, _), Tfhes(_, _), Groups(_, _)
Orams(n, good) == IF n = 0 THEN <<>> ELSE <<The({x : x \in {RandOram(good)}})>> \o Orams(n - 1, good)
Tfhes(n, good) == IF n = 0 THEN <<>> ELSE <<Mark(RandTfhe(good))>> \o Tfhes(n - 1, good)
Group(good) == [orams |-> Orams(Some(IF Real THEN 1..2 ELSE 0..3), good),
                tfhes |-> Tfhes(Some(IF Real THEN 1..2 ELSE 0..3), good)]
Groups(n, good) == IF n = 0 THEN <<>> ELSE <<Group(good)>> \o Groups(n - 1, good)
List(good) == Groups(Some(IF Real THEN 1..2 ELSE 0..4), good)
\* a command line: any subset of the flags
Flags == {"mode", "item_count", "query_count", "rows", "cols", "standard_deviation", "polynomial_size", "base_log", "level_count",
          "key_switch_base_log", "key_switch_level_count", "negs_base_log", "negs_level_count", "plaintext_modulus"}
CliOf(given, o, t) ==
  LET has(f) == f \in given
  IN [cli |-> [mode |-> IF has("mode") THEN o.m ELSE CliDefault.mode,
               item_count |-> IF has("item_count") THEN (IF o.m = 2 THEN 32 ELSE o.a) ELSE CliDefault.item_count,
               query_count |-> IF has("query_count") THEN (IF o.m = 1 THEN o.b ELSE 7) ELSE CliDefault.query_count,
               rows |-> IF has("rows") THEN (IF o.m = 2 THEN o.a ELSE 48) ELSE CliDefault.rows,
               cols |-> IF has("cols") THEN (IF o.m = 2 THEN o.b ELSE 32) ELSE CliDefault.cols],
      tfhe |-> Mark([std |-> IF has("standard_deviation") THEN t.std ELSE DefaultTfhe.std,
               n |-> IF has("polynomial_size") THEN t.n ELSE DefaultTfhe.n,
               bl |-> IF has("base_log") THEN t.bl ELSE DefaultTfhe.bl, lv |-> IF has("level_count") THEN t.lv ELSE DefaultTfhe.lv,
               kbl |-> IF has("key_switch_base_log") THEN t.kbl ELSE DefaultTfhe.kbl,
               klv |-> IF has("key_switch_level_count") THEN t.klv ELSE DefaultTfhe.klv,
               nbl |-> IF has("negs_base_log") THEN t.nbl ELSE DefaultTfhe.nbl,
               nlv |-> IF has("negs_level_count") THEN t.nlv ELSE DefaultTfhe.nlv,
               lt |-> IF has("plaintext_modulus") THEN t.lt ELSE DefaultTfhe.lt, ss |-> "true", broken |-> 0])]
Input(file, good, given, l, o, t, bad, dry) ==
  LET c == CliOf(given, o, t) IN
  [file |-> file, list |-> l, cli |-> c.cli, tfhe |-> c.tfhe, given |-> given, bad |-> bad, dry |-> dry]
Init == hist = <<>> /\ in = 0 /\ plan = 0 /\ k = 0 /\ it = 0 /\ out = 0 /\ status = 0
ENext == /\ hist = <<>> /\ UNCHANGED pvars
        /\ \E file \in {Some(IF Real THEN {"ok", "absent"} ELSE {"ok", "ok", "ok", "absent", "absent", "bad"})},
              good \in {Some(1..4) # 1},
              given \in {IF Real THEN Flags ELSE RandomSubset(Some(0..Cardinality(Flags)), Flags)},
              bad \in {Some(1..20)} :
           \E l \in {List(good)}, o \in {RandOram(good)}, t \in {RandTfhe(good)} :
             hist' = <<Input(file, good, given, IF file = "ok" THEN l ELSE <<>>, o, t, bad, IF Real THEN 0 ELSE 1)>>
ESpec == Init /\ [][ENext]_evars
Printed == IF Len(hist) = 1 THEN PrintT("@@" \o ToJson(hist[1])) ELSE TRUE
=============================================================================
