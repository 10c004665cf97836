------------------------------ MODULE TableMC -------------------------------
EXTENDS TableWriter
CONSTANT MaxLines
ANames == {<<7>>, <<Quote, 18, Comma, 18, Quote>>, <<>>}
ANumbers == {<<0>>, Largest}
AWrong == {<<>>, <<15, 1>>, <<14>>, <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 6>>, <<1, Quote>>, <<Quote, 1, Comma, 1, Quote>>}
AEnds == {<<11>>, <<12, 11>>, <<11, 11>>}
AWidths == 1..2
Small == line <= (IF bad THEN 2 ELSE MaxLines) /\ (bad /\ line = 2 => at = 0) /\ at <= width + 1 /\ Len(text) <= 48
=============================================================================
