---------------------------- MODULE TableWriter -----------------------------
(* Somebody writes a text of comma-separated values: a first line of names,  *)
(* then rows of numbers, in any way numbers may be written, sometimes with   *)
(* something in it that no table has.                                        *)
EXTENDS Table, TLC
CONSTANTS Widths, Names, Numbers, Wrong, LineEnds
\* at: how many fields the current line has; line: how many lines are complete
VARIABLES text, rows, cur, at, line, width, bad
vars == <<text, rows, cur, at, line, width, bad>>
Init == /\ text = <<>> /\ rows = <<>> /\ cur = <<>> /\ at = 0 /\ line = 0 /\ width \in Widths /\ bad = FALSE
\* a line of which nothing is seen (one empty field) is no line
Visible == text # <<>> /\ text[Len(text)] \notin Breaks
Sep == IF at = 0 THEN <<>> ELSE <<Comma>>
Plain(d) == d
Quoted(d) == <<Quote>> \o d \o <<Quote>>
Zeros(d) == <<0, 0>> \o d
Plus(d) == <<14>> \o d
Ways == {"plain", "quoted", "zeros", "plus", "both"}
Written(d, w) == CASE w = "plain" -> d [] w = "quoted" -> Quoted(d) [] w = "zeros" -> Zeros(d) [] w = "plus" -> Plus(d) [] OTHER -> Quoted(Plus(Zeros(d)))
Close == /\ line' = line + 1 /\ at' = 0 /\ cur' = <<>>
         /\ rows' = IF line > 0 THEN Append(rows, cur) ELSE rows
NameIs(s) == /\ line = 0 /\ at < width
             /\ text' = text \o Sep \o s
             /\ at' = at + 1 /\ UNCHANGED <<rows, cur, line, width, bad>>
CellIs(d, w) == /\ line > 0 /\ at < width
                /\ text' = text \o Sep \o Written(d, w) /\ cur' = Append(cur, d)
                /\ at' = at + 1 /\ UNCHANGED <<rows, line, width, bad>>
\* something which is no number
SlipIs(s) == /\ line > 0 /\ at < width
             /\ text' = text \o Sep \o s
             /\ at' = at + 1 /\ bad' = TRUE /\ UNCHANGED <<rows, cur, line, width>>
\* one field too many
ExtraIs(d) == /\ line > 0 /\ at = width
              /\ text' = text \o Sep \o d
              /\ at' = at + 1 /\ bad' = TRUE /\ UNCHANGED <<rows, cur, line, width>>
FullBy(e) == /\ at >= width /\ Visible
             /\ text' = text \o e
             /\ Close /\ UNCHANGED <<width, bad>>
\* one field too few
ShortBy(e) == /\ line > 0 /\ at > 0 /\ at < width /\ Visible
              /\ text' = text \o e
              /\ Close /\ bad' = TRUE /\ UNCHANGED width
Next == \/ \E s \in Names : NameIs(s)
        \/ \E d \in Numbers, w \in Ways : CellIs(d, w)
        \/ \E s \in Wrong : SlipIs(s)
        \/ \E d \in Numbers : ExtraIs(d)
        \/ \E e \in LineEnds : FullBy(e) \/ ShortBy(e)
Spec == Init /\ [][Next]_vars
\* at the end of a line nothing is open; the last line needs no end
Done == IF at = 0 THEN rows ELSE Append(rows, cur)
RightSoFar == IF line = 0 \/ (at > 0 /\ ~Visible) THEN TRUE
              ELSE IF at = 0 \/ at >= width THEN Read(text) = (IF bad THEN Refused ELSE [ok |-> TRUE, rows |-> Done])
              ELSE Read(text) = Refused
=============================================================================
