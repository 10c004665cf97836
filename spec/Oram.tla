-------------------------------- MODULE Oram --------------------------------
(* The ORAM protocol of Panacea at request level (src/oram.rs): what a       *)
(* client puts into a query, and how the server answers it and rewrites its  *)
(* cells, in the arithmetic the server actually performs (sums of selector   *)
(* times cell), after decryption.  The logical memory `Mem` and the contract *)
(* a user relies on are stated at the end and checked on this algorithm.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, ZtVec, Demux, Placement

VARIABLES
  shape,   \* [rows, cols, h, t, w, tab, own]; own[row][col] = item stored there, 0 if none
  cells,   \* cells[row][col], 1-based, vectors over Z_t: the server's only state
  pend,    \* prepared, not yet executed queries (client side): id -> query
  last     \* what the last step was: [kind, reqs, resps]

ovars == <<shape, cells, pend, last>>

NoStep == [kind |-> "none", reqs |-> <<>>, resps |-> <<>>]
Items == 1..Len(shape.tab)
\* which item owns a cell, 0 for a cell no item owns
Owners(tab, rows, cols) ==
  LET own(r, c) == {i \in DOMAIN tab : \E k \in DOMAIN tab[i] : tab[i][k] = <<r - 1, c - 1>>}
  IN [r \in 1..rows |-> [c \in 1..cols |-> IF own(r, c) = {} THEN 0 ELSE CHOOSE i \in own(r, c) : TRUE]]
MkShape(rows, cols, h, t, w, tab) ==
  [rows |-> rows, cols |-> cols, h |-> h, t |-> t, w |-> w, tab |-> tab, own |-> Owners(tab, rows, cols)]
\* setup: every replica of an item holds the item
Setup(sh, mem) == [r \in 1..sh.rows |-> [c \in 1..sh.cols |->
                    IF sh.own[r][c] = 0 THEN VZero(sh.w) ELSE mem[sh.own[r][c]]]]

----------------------------------------------------------------------------
(* Clients.  A row query holds the selection bits, the write flag and data.  *)
(* A query for a whole batch is a sequence of row queries, one per row.      *)
RowQuery(c, wr, v, cols) == [bits |-> EncBits(c, cols), wr |-> wr, data |-> v]

\* map is a set of <<row, col, item>>, 0-based; unused rows read column 0
\* the client believes the array has `rows` rows of `cols` columns
QueryFor(map, wr, v, rows, cols) ==
  [reqs |-> map, wr |-> wr, val |-> v,
   rowq |-> [r \in 1..rows |->
       IF \E m \in map : m[1] = r - 1
       THEN RowQuery((CHOOSE m \in map : m[1] = r - 1)[2], wr, v, cols)
       ELSE RowQuery(0, 0, v, cols)]]
BatchQuery(map, wr, v) == QueryFor(map, wr, v, shape.rows, shape.cols)
\* a query for one item in a database of one row
OneQuery(i, wr, v) == BatchQuery({<<shape.tab[i + 1][1][1], shape.tab[i + 1][1][2], i>>}, wr, v)

SetToSeqBy(S) == LET RECURSIVE F(_) 
                     F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x[1] <= y[1]
                                                    IN <<m>> \o F(T \ {m})
                 IN F(S)
\* the logical requests of a query, ordered by row
Reqs(q) == LET s == SetToSeqBy(q.reqs) IN
           [k \in DOMAIN s |-> [item |-> s[k][3], row |-> s[k][1], wr |-> q.wr, val |-> q.val]]

----------------------------------------------------------------------------
(* Server.  T and the row are implicit in the operands.                      *)
T == shape.t
Width == shape.w
Sel(q) == Selectors(q.bits)                                   \* demux
InnerProd(L, row) == VSum(T, Width, [j \in DOMAIN row |-> VScale(T, L[j], row[j])])
CMux(s, x0, x1) == VAdd(T, x0, VScale(T, s, VSub(T, x1, x0)))  \* 0 -> x0, 1 -> x1
RW(q, x) == CMux(q.wr, x, q.data)
UpdRow(q, L, row) == [j \in DOMAIN row |-> CMux(L[j], row[j], RW(q, row[j]))]

\* process_one: respond, then rewrite every column of row 1
OneStep(q) ==
  LET L == Sel(q) IN
  [y |-> InnerProd(L, cells[1]), cells |-> [cells EXCEPT ![1] = UpdRow(q, L, cells[1])]]

\* process_multi: all responses from the old row; one combined update, in which a column
\* becomes x - (sum of selectors) x + (sum of selector times rewritten x)
MultiStep(qs) ==
  LET L == [k \in DOMAIN qs |-> Sel(qs[k])]
      row == cells[1]
      upd(j) == LET n == ISum([k \in DOMAIN qs |-> L[k][j]])
                    s == VSum(T, Width, [k \in DOMAIN qs |-> VScale(T, L[k][j], RW(qs[k], row[j]))])
                IN VAdd(T, VSub(T, row[j], VScale(T, n, row[j])), s)
  IN [ys |-> [k \in DOMAIN qs |-> InnerProd(L[k], row)],
      cells |-> [cells EXCEPT ![1] = [j \in DOMAIN row |-> upd(j)]]]

\* consistency correction of item i (process_batch, after the row updates):
\* (1 - sum_k b_k c_k) v_1 + b_1 c_1 v_1 + sum_(k>1) b_k c_k v_k
Corrected(i, cs, L, wr) ==
  LET pos == shape.tab[i]
      h == shape.h
      v(k) == cs[pos[k][1] + 1][pos[k][2] + 1]
      s(k) == wr[pos[k][1] + 1] * L[pos[k][1] + 1][pos[k][2] + 1]
      n == ISum([k \in 1..h |-> s(k)])
  IN VAdd(T, VSub(T, v(1), VScale(T, n, v(1))),
             VSum(T, Width, [k \in 1..h |-> VScale(T, s(k), v(k))]))

BatchStep(rq) ==
  LET L == [r \in 1..shape.rows |-> Sel(rq[r])]
      wr == [r \in 1..shape.rows |-> rq[r].wr]
      cs == [r \in 1..shape.rows |-> UpdRow(rq[r], L[r], cells[r])]
      fix == [i \in Items |-> Corrected(i, cs, L, wr)]
  IN [ys |-> [r \in 1..shape.rows |-> InnerProd(L[r], cells[r])],
      cells |-> [r \in 1..shape.rows |-> [c \in 1..shape.cols |->
                   IF shape.own[r][c] = 0 THEN cs[r][c] ELSE fix[shape.own[r][c]]]]]

----------------------------------------------------------------------------
(* Actions.                                                                  *)
Restrict(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
Prepare(id, q) ==
  /\ pend' = (id :> q) @@ pend
  /\ last' = [NoStep EXCEPT !.kind = "prep"]
  /\ UNCHANGED <<shape, cells>>
\* a query which is never executed has no effect
Discard(id) ==
  /\ pend' = Restrict(pend, DOMAIN pend \ {id})
  /\ last' = [NoStep EXCEPT !.kind = "drop"]
  /\ UNCHANGED <<shape, cells>>

\* a request the array can answer: as many selectors as columns, one query per row
FitsRow(rq) == Pow2(Len(rq.bits)) = shape.cols /\ Len(rq.bits) > 0
FitsBatch(rqs) == Len(rqs) = shape.rows /\ \A r \in DOMAIN rqs : FitsRow(rqs[r])
\* a request that does not fit is refused: the server keeps its cells
Refuse(ids) ==
  /\ pend' = Restrict(pend, DOMAIN pend \ {ids[k] : k \in DOMAIN ids})
  /\ last' = [NoStep EXCEPT !.kind = "refused"]
  /\ UNCHANGED <<shape, cells>>

ExecOne(id) ==
  LET q == pend[id]
      s == OneStep(q.rowq[1])
  IN /\ cells' = s.cells
     /\ pend' = Restrict(pend, DOMAIN pend \ {id})
     /\ last' = [kind |-> "one", reqs |-> Reqs(q), resps |-> <<s.y>>]
     /\ UNCHANGED shape

\* ids: sequence of prepared queries
ExecMulti(ids) ==
  LET s == MultiStep([k \in DOMAIN ids |-> pend[ids[k]].rowq[1]])
      rq == [k \in DOMAIN ids |-> Reqs(pend[ids[k]])[1]]
  IN /\ cells' = s.cells
     /\ pend' = Restrict(pend, DOMAIN pend \ {ids[k] : k \in DOMAIN ids})
     /\ last' = [kind |-> "multi", reqs |-> rq, resps |-> s.ys]
     /\ UNCHANGED shape

ExecBatch(id) ==
  LET q == pend[id]
      s == BatchStep(q.rowq)
      rq == Reqs(q)
  IN /\ cells' = s.cells
     /\ pend' = Restrict(pend, DOMAIN pend \ {id})
     /\ last' = [kind |-> "batch", reqs |-> rq,
                 resps |-> [k \in DOMAIN rq |-> s.ys[rq[k].row + 1]]]
     /\ UNCHANGED shape

\* a request put together from the row queries of several prepared batches: the k-th
\* query is the one prepared for row k
MixReqs(ids) ==
  LET RECURSIVE F(_)
      F(k) == IF k > Len(ids) THEN <<>>
              ELSE SelectSeq(Reqs(pend[ids[k]]), LAMBDA r : r.row = k - 1) \o F(k + 1)
  IN F(1)
ExecMix(ids) ==
  LET s == BatchStep([k \in DOMAIN ids |-> pend[ids[k]].rowq[k]])
      rq == MixReqs(ids)
  IN /\ cells' = s.cells
     /\ pend' = Restrict(pend, DOMAIN pend \ {ids[k] : k \in DOMAIN ids})
     /\ last' = [kind |-> "batch", reqs |-> rq,
                 resps |-> [k \in DOMAIN rq |-> s.ys[rq[k].row + 1]]]
     /\ UNCHANGED shape

----------------------------------------------------------------------------
(* What a user relies on.                                                    *)
CellAt(cs, p) == cs[p[1] + 1][p[2] + 1]
MemOf(cs) == [i \in Items |-> CellAt(cs, shape.tab[i][1])]
Mem == MemOf(cells)

WritesDistinct(rq) == \A a, b \in DOMAIN rq :
                        (a # b /\ rq[a].wr = 1 /\ rq[b].wr = 1) => rq[a].item # rq[b].item

\* C01-C03: every response is the old value; writes and only writes change items
StepContract ==
  last'.kind \in {"one", "multi", "batch"} =>
    /\ \A k \in DOMAIN last'.reqs : last'.resps[k] = Mem[last'.reqs[k].item + 1]
    /\ WritesDistinct(last'.reqs) =>
         \A i \in Items :
           MemOf(cells')[i] =
             IF \E k \in DOMAIN last'.reqs : last'.reqs[k].wr = 1 /\ last'.reqs[k].item = i - 1
             THEN last'.reqs[CHOOSE k \in DOMAIN last'.reqs : last'.reqs[k].wr = 1 /\ last'.reqs[k].item = i - 1].val
             ELSE Mem[i]
Contract == [][StepContract]_<<cells, last>>
\* C07: preparing or discarding a query changes nothing on the server
PrepareInert == [][last'.kind \in {"prep", "drop"} => cells' = cells]_<<cells, last, pend>>
\* C04
ReplicasAgree == \A i \in Items : \A k \in 1..shape.h : CellAt(cells, shape.tab[i][k]) = Mem[i]
\* C10, as used here: the selectors of every prepared row query are one-hot
SelectorsOneHot == \A id \in DOMAIN pend : \A r \in DOMAIN pend[id].rowq :
                     LET s == Sel(pend[id].rowq[r]) IN
                     /\ Len(s) = shape.cols
                     /\ \E j \in DOMAIN s : s[j] = 1 /\ \A k \in DOMAIN s : k # j => s[k] = 0
\* C05
PlacementOK == ValidTable(shape.tab, shape.rows, shape.cols, shape.h)
=============================================================================
