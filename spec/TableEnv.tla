------------------------------ MODULE TableEnv ------------------------------
(* Texts drawn by TLC from the writer: most of them are tables.              *)
EXTENDS TableWriter, Json
CONSTANT Most
VARIABLES left, clean, size
evars == <<text, rows, cur, at, line, width, bad, left, clean, size>>
Some(S) == RandomElement(S)
NoSet == {}
EWidths == 1..7
EInit == Init /\ left \in 0..Most /\ clean \in {0, 1, 2} /\ size \in 1..4
RECURSIVE Random(_)
Random(k) == IF k = 0 THEN <<>> ELSE Random(k - 1) \o <<Some(0..9)>>
\* around the largest number
RECURSIVE Less(_, _)
Less(d, i) == IF d[i] > 0 THEN [d EXCEPT ![i] = @ - 1] ELSE Less([d EXCEPT ![i] = 9], i - 1)
RECURSIVE More(_, _)
More(d, i) == IF d[i] < 9 THEN [d EXCEPT ![i] = @ + 1] ELSE More([d EXCEPT ![i] = 0], i - 1)
ANumber(w) == CASE w <= 4 -> Strip(Random(Some(1..size)))
                [] w <= 6 -> Strip(Random(Some(1..19)))
                [] w = 7 -> Strip(<<1, Some(0..7)>> \o Random(18))
                [] w = 8 -> Largest
                [] w = 9 -> Strip(Less(Largest, Some(1..20)))
                [] OTHER -> <<Some(0..9)>>
AWrong(w) == CASE w = 1 -> <<>> [] w = 2 -> <<15>> \o Random(2) [] w = 3 -> <<16>> \o Random(1) [] w = 4 -> Random(1) \o <<16>>
               [] w = 5 -> <<1, 17, 0>> [] w = 6 -> <<14>> [] w = 7 -> <<14, 14, 3>> [] w = 8 -> <<18>> [] w = 9 -> <<19, 4>>
               [] w = 10 -> More(Largest, Some(1..20)) [] w = 11 -> <<Some(1..9)>> \o Random(20) [] w = 12 -> <<1, Quote>> [] w = 13 -> <<Quote, Quote>>
               [] w = 14 -> <<Quote, 1, Comma, 2, Quote>> [] w = 15 -> <<Quote, 1, 11, Quote>> [] w = 16 -> <<Quote, 1, Quote, Quote, Quote>> [] OTHER -> <<2, 0, 4, 8, 18>>
AName(w) == CASE w = 1 -> <<>> [] w = 2 -> <<Quote, 18, Comma, 19, Quote>> [] w = 3 -> <<Quote, 18, 11, 18, Quote>> [] w = 4 -> Random(3) [] w = 5 -> <<18, 16, 18>> [] OTHER -> <<18, Some(0..9)>>
AWay(w) == CASE w = 1 -> "quoted" [] w = 2 -> "zeros" [] w = 3 -> "plus" [] w = 4 -> "both" [] OTHER -> "plain"
AnEnd(w) == CASE w = 1 -> <<12, 11>> [] w = 2 -> <<11, 11>> [] w = 3 -> <<12>> [] w = 4 -> <<12, 11, 12, 11>> [] OTHER -> <<11>>
ENext ==
  /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<clean, size>>
  /\ \E slip \in {clean = 0 /\ left # Most /\ Some(1..6) = 1}, z \in {IF left = Most THEN 2 ELSE Some(1..17)}, y \in {IF left = Most THEN 6 ELSE Some(1..8)}, x \in {IF left = Most THEN 1 ELSE Some(1..10)} :
       \E s \in {AWrong(z)}, d \in {ANumber(x)}, n \in {AName(y)}, e \in {AnEnd(y)} :
          IF at >= width /\ ~Visible THEN NameIs(n) \/ CellIs(d, "plain") \/ (at' = 0 /\ UNCHANGED <<text, rows, cur, line, width, bad>>)
          ELSE IF at >= width THEN (IF slip /\ line > 0 /\ at = width THEN ExtraIs(d) ELSE FullBy(e))
          ELSE IF line = 0 THEN NameIs(n)
          ELSE IF slip THEN (IF at > 0 /\ Visible /\ y > 4 THEN ShortBy(e) ELSE SlipIs(s))
          ELSE CellIs(d, AWay(z))
ESpec == EInit /\ [][ENext]_evars
Printed == IF left = 0 THEN PrintT("@@" \o ToJson([text |-> text])) ELSE TRUE
=============================================================================
