----------------------------- MODULE TableTrace -----------------------------
(* What parse_csv, transpose and pt_to_lossy_u64 made of their inputs,       *)
(* judged against Table.                                                     *)
EXTENDS Table, TraceBase
VARIABLES l, diag
tvars == <<l, diag>>
E == Trace[l]
Bits == SubSeq(E.xs, 1, IF Len(E.xs) < 64 THEN Len(E.xs) ELSE 64)
RECURSIVE Word(_, _)
Word(b, i) == IF i = 16 THEN 0 ELSE (IF i < Len(b) THEN b[i + 1] ELSE 0) + 2 * Word(b, i + 1)
Limb(k) == Word(SubSeq(Bits, 16 * k + 1, Len(Bits)), 0)
Step ==
  CASE E.ev = "csv" ->
         IF E.absent THEN Obs("absent", E.out = "refused")
         ELSE LET r == Read(E.text)
              IN Obs("accepts", ~r.ok => E.out = "refused")
                 \cup Obs("refuses", r.ok => E.out = "ok")
                 \cup Obs("rows", r.ok /\ E.out = "ok" => E.rows = r.rows)
    [] E.ev = "columns" -> IF Rectangular(E.table) THEN Obs("columns", E.out = "ok" /\ E.rows = Columns(E.table)) ELSE {}
    [] E.ev = "bits" -> IF \A i \in DOMAIN Bits : Bits[i] \in {0, 1}
                        THEN Obs("bits", E.out = "ok" /\ E.x = [k \in 1..4 |-> Limb(k - 1)])
                        ELSE Obs("not-bits", E.out = "refused")
    [] OTHER -> {}
TraceInit == l = 1 /\ diag = {}
TraceNext == l <= TraceLen /\ l' = l + 1 /\ diag' = Step
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == diag = {}
=============================================================================
