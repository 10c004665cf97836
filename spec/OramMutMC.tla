------------------------------ MODULE OramMutMC ------------------------------
(* Mistakes in the ORAM algorithm, each of which the properties of Oram have *)
(* to reject (a configuration replaces a definition of Oram by one of these). *)
EXTENDS OramMC

\* the padding of an unused row repeats the write at column 0
PadWrites(map, wr, v, rows, cols) ==
  [reqs |-> map, wr |-> wr, val |-> v,
   rowq |-> [r \in 1..rows |->
       IF \E m \in map : m[1] = r - 1
       THEN RowQuery((CHOOSE m \in map : m[1] = r - 1)[2], wr, v, cols)
       ELSE RowQuery(0, wr, v, cols)]]
\* replicas are not corrected
NoCorrection(i, cs, L, wr) == CellAt(cs, shape.tab[i][1])
\* the correction looks at the write flag of the first replica's row only
FirstFlag(i, cs, L, wr) ==
  LET pos == shape.tab[i]
      h == shape.h
      v(k) == cs[pos[k][1] + 1][pos[k][2] + 1]
      s(k) == wr[pos[1][1] + 1] * L[pos[k][1] + 1][pos[k][2] + 1]
      n == ISum([k \in 1..h |-> s(k)])
  IN VAdd(T, VSub(T, v(1), VScale(T, n, v(1))), VSum(T, Width, [k \in 1..h |-> VScale(T, s(k), v(k))]))
\* the correction ignores the write flag: a read of the second replica is fine, padding is not
NoFlag(i, cs, L, wr) ==
  LET pos == shape.tab[i]
      h == shape.h
      v(k) == cs[pos[k][1] + 1][pos[k][2] + 1]
      s(k) == L[pos[k][1] + 1][pos[k][2] + 1]
      n == ISum([k \in 1..h |-> s(k)])
  IN VAdd(T, VSub(T, v(1), VScale(T, n, v(1))), VSum(T, Width, [k \in 1..h |-> VScale(T, s(k), v(k))]))
\* the answer is computed from the updated row
AnswerAfter(q) ==
  LET L == Sel(q)
      new == UpdRow(q, L, cells[1])
  IN [y |-> InnerProd(L, new), cells |-> [cells EXCEPT ![1] = new]]
\* the combined update treats "selected by some query" as a single selector
SingleSelector(qs) ==
  LET L == [k \in DOMAIN qs |-> Sel(qs[k])]
      row == cells[1]
      upd(j) == LET n == ISum([k \in DOMAIN qs |-> L[k][j]])
                    s == VSum(T, Width, [k \in DOMAIN qs |-> VScale(T, L[k][j], RW(qs[k], row[j]))])
                IN IF n = 0 THEN row[j] ELSE s
  IN [ys |-> [k \in DOMAIN qs |-> InnerProd(L[k], row)], cells |-> [cells EXCEPT ![1] = [j \in DOMAIN row |-> upd(j)]]]
\* the queries of a request are executed one after the other
Sequentially(qs) ==
  LET RECURSIVE F(_, _, _)
      F(k, row, ys) == IF k > Len(qs) THEN [ys |-> ys, row |-> row]
                       ELSE LET L == Sel(qs[k]) IN F(k + 1, UpdRow(qs[k], L, row), Append(ys, InnerProd(L, row)))
      r == F(1, cells[1], <<>>)
  IN [ys |-> r.ys, cells |-> [cells EXCEPT ![1] = r.row]]
\* selection bits least significant first
LowFirst(i, c) == LET n == Log2(c) IN [l \in 1..n |-> 1 - IndexBit(i, l - 1)]
\* the write flag selects the other way round
Inverted(q, x) == CMux(q.wr, q.data, x)
\* setup fills the first replica only
OneReplica(sh, mem) == [r \in 1..sh.rows |-> [c \in 1..sh.cols |->
                          IF sh.own[r][c] = 0 \/ sh.tab[sh.own[r][c]][1] # <<r - 1, c - 1>> THEN VZero(sh.w) ELSE mem[sh.own[r][c]]]]
=============================================================================
