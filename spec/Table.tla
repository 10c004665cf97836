------------------------------- MODULE Table -------------------------------
(* Tables of numbers: what a text of comma-separated values says, character  *)
(* by character, and the columns of a table.                                 *)
(* Characters: 0..9 the digits, 10 comma, 11 line feed, 12 carriage return,  *)
(* 13 quotation mark, 14 plus, 15 minus, 16 blank, 17 dot, 18 a, 19 e acute. *)
(* A number is the sequence of its decimal digits, without leading zeros.    *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT Mutant
Comma == 10
Breaks == {11, 12}
Quote == 13
Start == [st |-> "line", field |-> <<>>, rec |-> <<>>, recs |-> <<>>]
EndField(s, st) == [s EXCEPT !.rec = Append(@, s.field), !.field = <<>>, !.st = st]
EndRecord(s) == LET e == EndField(s, "line") IN [e EXCEPT !.recs = Append(@, e.rec), !.rec = <<>>]
Put(s, ch, st) == [s EXCEPT !.field = Append(@, ch), !.st = st]
AtStart(s, ch) == IF ch = Quote /\ Mutant # "unquoted" THEN [s EXCEPT !.st = "quoted"]
                  ELSE IF ch = Comma THEN EndField(s, "start") ELSE IF ch \in Breaks THEN EndRecord(s) ELSE Put(s, ch, "in")
Char(s, ch) ==
  CASE s.st = "line" -> IF ch \in Breaks THEN s ELSE AtStart(s, ch)
    [] s.st = "start" -> AtStart(s, ch)
    [] s.st = "in" -> IF ch = Comma THEN EndField(s, "start") ELSE IF ch \in Breaks THEN EndRecord(s) ELSE Put(s, ch, "in")
    [] s.st = "quoted" -> IF ch = Quote THEN [s EXCEPT !.st = "closed"] ELSE Put(s, ch, "quoted")
    [] OTHER -> IF ch = Quote THEN Put(s, ch, "quoted") ELSE IF ch = Comma THEN EndField(s, "start") ELSE IF ch \in Breaks THEN EndRecord(s) ELSE Put(s, ch, "in")
Records(text) == LET s == FoldLeft(Char, Start, text) IN IF s.st = "line" \/ Mutant = "lastline" THEN s.recs ELSE EndRecord(s).recs
-----------------------------------------------------------------------------
Largest == <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>
Digits(f) == IF f # <<>> /\ f[1] = 14 THEN Tail(f) ELSE f
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d
RECURSIVE Above(_, _, _)
Above(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] # b[i] THEN a[i] > b[i] ELSE Above(a, b, i + 1)
Fits(d) == Len(d) < Len(Largest) \/ (Len(d) = Len(Largest) /\ ~Above(d, Largest, 1))
IsNumber(f) == LET d == Digits(f) IN d # <<>> /\ (\A i \in DOMAIN d : d[i] \in 0..9) /\ Fits(Strip(d))
Number(f) == Strip(Digits(f))
Refused == [ok |-> FALSE, rows |-> <<>>]
Rows(rs) == [i \in DOMAIN rs |-> [j \in DOMAIN rs[i] |-> Number(rs[i][j])]]
Good(r, width) == Len(r) = width /\ \A j \in DOMAIN r : IsNumber(r[j])
\* what the text says: the rows below its first line, or nothing at all
Read(text) ==
  LET rs == Records(text)
      body == IF rs = <<>> THEN <<>> ELSE IF Mutant = "header" THEN rs ELSE Tail(rs)
      width == Len(rs[1])
      all == \A i \in DOMAIN body : Good(body[i], IF Mutant = "ragged" THEN Len(body[i]) ELSE width)
  IN IF all THEN [ok |-> TRUE, rows |-> Rows(body)]
     ELSE IF Mutant = "skip" THEN [ok |-> TRUE, rows |-> Rows(SelectSeq(body, LAMBDA r : Good(r, width)))]
     ELSE Refused
-----------------------------------------------------------------------------
Rectangular(t) == t # <<>> /\ \A i \in DOMAIN t : Len(t[i]) = Len(t[1])
Columns(t) == [j \in 1..Len(t[1]) |-> [i \in DOMAIN t |-> t[i][j]]]
=============================================================================
