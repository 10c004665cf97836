---------------------------- MODULE GrowthTrace -----------------------------
(* The noise of the responses of a recorded history: judged against Growth.  *)
(* State: how many accesses there were, what the first ones showed.          *)
EXTENDS Growth, TraceBase
CONSTANTS Slack
\* warm: how many requests at the beginning read every item once; what they show depends on the place of the item
VARIABLES l, diag, b, warm, k, n1, seen
tvars == <<l, diag, b, warm, k, n1, seen>>
E == Trace[l]
RECURSIVE MaxOf(_, _)
MaxOf(s, i) == IF i > Len(s) THEN 0 ELSE LET m == MaxOf(s, i + 1) IN IF s[i] > m THEN s[i] ELSE m
Accesses == IF E.ev = "multi" THEN E.nq ELSE IF E.ev = "batch" THEN 2 ELSE 1
Step ==
  CASE E.ev = "new" -> b' = E.b /\ warm' = E.warm /\ k' = 0 /\ n1' = 0 /\ seen' = 0 /\ diag' = Obs("setup", E.out = "ok")
    [] E.ev \in {"one", "multi", "batch"} ->
         LET m == MaxOf(E.nz, 1)
         IN /\ UNCHANGED <<b, warm>>
            /\ k' = k + Accesses /\ seen' = seen + 1
            /\ n1' = IF seen < warm /\ m > n1 THEN m ELSE n1
            /\ diag' = IF E.out # "ok" THEN {"refused"}
                       ELSE Obs("inside-margin", Inside(m, b))
                            \cup (IF seen >= warm THEN Obs("additive", m <= Additive(n1, k, Slack)) ELSE {})
    [] OTHER -> UNCHANGED <<b, warm, k, n1, seen>> /\ diag' = {}
TraceInit == l = 1 /\ diag = {} /\ b = 1 /\ warm = 1 /\ k = 0 /\ n1 = 0 /\ seen = 0
TraceNext == l <= TraceLen /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == diag = {}
=============================================================================
