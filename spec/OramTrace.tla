----------------------------- MODULE OramTrace -----------------------------
(* Is a recorded session of real clients and servers a behaviour of Oram?    *)
(* Every event is one call of the public API with its arguments and what it  *)
(* showed: decrypted responses and, where decrypt_db can show them           *)
(* completely, all decrypted cells.  `diag` collects the observations which  *)
(* differ from what the Oram action predicts.                                *)
EXTENDS Oram, TraceBase
VARIABLES l, diag
tvars == <<ovars, l, diag>>

E == Trace[l]
AsTuples(tab) == tab

CellsShown(e, cs) == Obs("cells", e.hc # 2 /\ (e.hc = 1 => e.cells = cs))

ShapeLegal(e) == e.items_n * e.h = e.rows * e.cols

New(e) ==
  IF e.out # "ok"
  THEN \* only a shape which does not match the placement may be refused
       /\ diag' = Obs("setup-refused", e.out = "panic" /\ ~ShapeLegal(e))
       /\ shape' = MkShape(0, 0, 1, 2, 1, <<>>) /\ cells' = <<>>
       /\ pend' = [x \in {} |-> 0] /\ last' = NoStep
  ELSE LET sh == MkShape(e.rows, e.cols, e.h, e.t, Len(e.mem[1]), e.tab)
           cs == Setup(sh, e.mem)
       IN /\ shape' = sh
          /\ cells' = cs
          /\ pend' = [x \in {} |-> 0]
          /\ last' = NoStep
          /\ diag' = Obs("setup-accepted", ShapeLegal(e))
                \cup Obs("count", Len(e.mem) = e.items_n /\ Len(e.tab) = e.items_n)
                \cup Obs("placement", ValidTable(e.tab, e.rows, e.cols, e.h))
                \cup CellsShown(e, cs)

\* nothing happened to client queries or server
Idle == UNCHANGED <<shape, cells, pend>> /\ last' = NoStep
\* a value or an item which does not exist
Nonsense(e) == e.vbig = 1 \/ \E k \in DOMAIN e.items : e.items[k] >= Len(shape.tab)
MapSet(e) == {e.map[k] : k \in DOMAIN e.map}
Prep(e) ==
  LET g == Greedy(shape.tab, e.items)
      mustrefuse == Nonsense(e)
      mayrefuse == mustrefuse \/ ~g.ok
      v == IF e.op = "w" THEN e.val ELSE VZero(shape.w)
      wr == IF e.op = "w" THEN 1 ELSE 0
      map == IF e.kind = "one"
             THEN {<<0, shape.tab[e.items[1] + 1][1][2], e.items[1]>>}
             ELSE MapSet(e)
  IN IF e.out # "ok"
     THEN /\ diag' = Obs("prep-refused", e.out = "panic" /\ mayrefuse)
          /\ Idle
     ELSE IF mustrefuse
     THEN diag' = {"prep-accepted"} /\ Idle
     ELSE /\ Prepare(e.q, QueryFor(map, wr, v, e.len, e.ccols))
          /\ diag' = Obs("mapping", e.kind = "one" \/ (e.ccols = shape.cols => ValidMapping(shape.tab, e.items, map)))
               \cup Obs("query-per-row", e.len = (IF e.kind = "one" THEN 1 ELSE e.crows))

Ids(e) == SelectSeq(e.qs, LAMBDA id : id \in DOMAIN pend)
RowQs(e, ids) == LET all == [k \in DOMAIN ids |-> pend[ids[k]].rowq]
                     RECURSIVE Cat(_)
                     Cat(k) == IF k > Len(ids) THEN <<>>
                               ELSE (IF e.ev = "multi" THEN <<all[k][1]>>
                                     ELSE IF e.mix = 1 /\ k <= Len(all[k]) THEN <<all[k][k]>> ELSE all[k]) \o Cat(k + 1)
                     whole == Cat(1)
                 IN IF e.nq < Len(whole) THEN SubSeq(whole, 1, e.nq) ELSE whole

Exec(e) ==
  LET ids == Ids(e)
      rqs == RowQs(e, ids)
      fits == IF e.ev = "batch" THEN FitsBatch(rqs) ELSE \A k \in DOMAIN rqs : FitsRow(rqs[k])
  IN IF e.out # "ok"
     THEN /\ Refuse(ids)
          /\ diag' = Obs(e.out, e.out = "panic" /\ ~fits) \cup CellsShown(e, cells)
     ELSE IF ~fits
     THEN /\ Refuse(ids) /\ diag' = {"accepted"} 
     ELSE /\ CASE e.ev = "one" -> ExecOne(ids[1])
               [] e.ev = "multi" -> ExecMulti(ids)
               [] e.ev = "batch" /\ e.mix = 0 -> ExecBatch(ids[1])
               [] e.ev = "batch" /\ e.mix = 1 -> ExecMix(ids)
          /\ diag' =
               Obs("answers", Len(e.resp) = IF e.ev = "batch" THEN shape.rows ELSE Len(ids))
               \cup Obs("response",
                    \A k \in DOMAIN last'.reqs :
                      LET x == IF e.ev = "batch" THEN last'.reqs[k].row + 1 ELSE k
                      IN x \in DOMAIN e.resp /\ e.resp[x] = last'.resps[k])
               \cup CellsShown(e, cells')

TraceInit ==
  /\ l = 1 /\ diag = {}
  /\ shape = MkShape(0, 0, 1, 2, 1, <<>>) /\ cells = <<>>
  /\ pend = [x \in {} |-> 0] /\ last = NoStep

TraceNext ==
  /\ l <= TraceLen
  /\ l' = l + 1
  /\ CASE E.ev = "new" -> New(E)
       [] E.ev = "prep" -> Prep(E)
       [] E.ev \in {"one", "multi", "batch"} -> Exec(E)
       [] E.ev = "drop" -> (Discard(E.q) /\ diag' = {})
       [] OTHER -> Idle /\ diag' = Obs(E.ev, E.out = "ok")
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == diag = {}
\* the properties of Oram, evaluated on the recorded behaviour
TraceContract == [][l' = l + 1 => StepContract]_tvars
TraceReplicas == (shape.rows > 0 => ReplicasAgree)
=============================================================================
