----------------------------- MODULE ParamsTrace -----------------------------
(* Is what the real parser and the real program did what Params says?        *)
EXTENDS Params, TraceBase
VARIABLES l, diag
tvars == <<pvars, l, diag>>
E == Trace[l]
Idle == UNCHANGED pvars

\* parameter file -> configurations, by library call
ExpandEv(e) ==
  LET want == IF e.file = "bad" THEN Expand(DefaultList) ELSE Expand(e.list) IN
  Obs("parsed", e.parsed = (IF e.file = "bad" THEN 0 ELSE 1))
  \cup Obs("expanded", e.cfgs = want)
  \cup (IF e.file = "ok" THEN Obs("ordered", ExactlyOrdered(e.list, e.cfgs)) ELSE {})
  \cup Obs("written-and-read", e.again = want)
\* one run of the program
RunEv(e) ==
  LET i == [file |-> e.file, list |-> e.list, cli |-> e.cli, tfhe |-> e.tfhe, dry |-> e.dry]
      r == Report(i)
  IN Obs("exit", e.exit = (IF r.ok = 1 THEN "ok" ELSE "failed"))
     \cup Obs("one-header", e.headers = 1 /\ {e.header[x] : x \in DOMAIN e.header} = Columns /\ Len(e.header) = Cardinality(Columns))
     \cup Obs("rows", Len(e.rows) = Len(r.rows))
     \cup Obs("row", \A x \in DOMAIN e.rows \cap DOMAIN r.rows : e.rows[x] = r.rows[x])
     \cup Obs("iterations", ExtraOK(r, e.extra))
     \cup Obs("other-output", e.junk = 0)

TraceInit == l = 1 /\ diag = {} /\ in = 0 /\ plan = 0 /\ k = 0 /\ it = 0 /\ out = 0 /\ status = 0
TraceNext ==
  /\ l <= TraceLen
  /\ l' = l + 1
  /\ Idle
  /\ diag' = CASE E.out # "ok" -> {E.out}
               [] E.ev = "expand" -> ExpandEv(E)
               [] E.ev = "run" -> RunEv(E)
               [] OTHER -> {}
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == diag = {}
=============================================================================
