--------------------------- MODULE PlacementTrace ---------------------------
(* Is a recorded run of the real placement a behaviour of Placement?         *)
(* State: the table of the current placement, cells as numbers.              *)
EXTENDS Placement, TraceBase
VARIABLES l, diag, raw
tvars == <<l, diag, raw>>
E == Trace[l]
OK == E.out = "ok"
Split(t, d) == [i \in DOMAIN t |-> [k \in DOMAIN t[i] |-> <<t[i][k] \div d, t[i][k] % d>>]]
Cells(t) == {t[i][k] : i \in DOMAIN t, k \in 1..E.h}
Shaped(t) == Len(t) = E.dom /\ \A i \in DOMAIN t : Len(t[i]) = E.h
\* every mapping of a request
MapOK(tab, m) == IF \E k \in DOMAIN m.items : m.items[k] >= Len(tab) THEN ~m.ok
                 ELSE IF m.ok THEN ValidMapping(tab, m.items, {m.map[k] : k \in DOMAIN m.map}) /\ Len(m.map) = Len(m.items)
                 ELSE ~Greedy(tab, m.items).ok
Step ==
  CASE E.ev = "hash" -> IF ~OK THEN raw' = <<>> /\ diag' = Obs("placement-refused", E.h = 0)
                        ELSE /\ raw' = E.raw
                             /\ diag' = Obs("shape", Shaped(E.raw))
                                 \cup (IF ~Shaped(E.raw) THEN {} ELSE
                                    Obs("injective", Cells(E.raw) = 0..(E.h * E.dom - 1))
                                    \cup Obs("named", \A i \in DOMAIN E.raw : E.named[i] = SubSeq(E.raw[i], 1, IF E.h < 3 THEN E.h ELSE 3))
                                    \cup Obs("checked", \A i \in 0..E.dom : \A k \in 0..E.h : E.checked[i + 1][k + 1] = IF i < E.dom /\ k < E.h THEN E.raw[i + 1][k + 1] ELSE -1)
                                    \cup Obs("counts", E.counts = <<E.h, E.dom, E.h * E.dom>>))
    [] E.ev = "tuples" -> raw' = raw /\ diag' = Obs("tuples", OK /\ E.tab = Split(raw, E.d))
    [] E.ev = "maps" -> raw' = raw /\ diag' = IF OK THEN Obs("mapping", \A k \in DOMAIN E.maps : MapOK(Split(raw, E.d), E.maps[k])) ELSE {"maps-refused"}
TraceInit == l = 1 /\ diag = {} /\ raw = <<>>
TraceNext == l <= TraceLen /\ l' = l + 1 /\ Step
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == diag = {}
=============================================================================
