------------------------------ MODULE OramSched ------------------------------
(* One request of the ORAM server, executed by worker threads (src/oram.rs   *)
(* process_one, process_multi, process_batch on rayon).  A request is a      *)
(* sequence of parallel phases with a barrier after each; a phase is a set   *)
(* of tasks that any worker may take in any order; a task is a program of    *)
(* micro steps: take the read lock of a row, take the FFT buffer of one's    *)
(* own thread, compute, release, take the write lock, store.  Sums are       *)
(* reductions: adjacent partial results are combined in any grouping.        *)
(*                                                                           *)
(* What must hold: whatever the interleaving, the number of workers and the  *)
(* kind of calling thread, the responses and the cells are those of the      *)
(* sequential definition in Oram.tla, and the request terminates.            *)
EXTENDS Oram
CONSTANTS
  Mode,      \* "one", "multi", "batch"
  Workers,   \* number of worker threads
  Outside,   \* the request is made by a thread that is not a worker
  Requests,  \* number of queries of a "multi" request
  ColsC, RowsC, HC, TC,
  Design     \* set of deviations from the design; {} is the design itself

VARIABLES
  rq,      \* the row queries of the request
  sel,     \* sel[k] = the selectors query k expands to
  want,    \* [ys, cells]: the sequential outcome
  ph,      \* current phase
  todo,    \* tasks of the current phase that nobody has taken
  wk,      \* wk[w] = stack of frames [ph, task, pc, reg]
  outs,    \* outs[p][k] = result of task k of phase p
  seg,     \* the partial results of a reduction phase, in order
  rl, wl, ww,  \* rl[row] = readers, wl[row] = writer or -1, ww[row] = waiting writers
  bo, bc,  \* bo[i] = owner of FFT buffer i or -1, bc[i] = what it was last filled with
  acc,     \* a shared accumulator (only deviating designs use one)
  bad      \* a panic: "" if none

svars == <<rq, sel, want, ph, todo, wk, outs, seg, rl, wl, ww, bo, bc, acc, bad>>
vars == <<ovars, svars>>

----------------------------------------------------------------------------
(* Threads.  Worker w uses buffer w; a thread that is no worker uses the     *)
(* first buffer, and runs tasks itself only when there is nothing to share.  *)
W == (IF Outside THEN {0} ELSE {}) \cup 1..Workers
NBuf == IF "smallpool" \in Design THEN 1 ELSE Workers
Idx(w) == IF "sharedbuf" \in Design \/ "nolock" \in Design THEN 1 ELSE IF w = 0 THEN 1 ELSE w
Panics(w) == Idx(w) > NBuf \/ ("tidunwrap" \in Design /\ w = 0)

Base(r, c) == (r * ColsC + c + 1) % TC
FixedTab == [i \in 1..((RowsC * ColsC) \div HC) |-> [k \in 1..HC |->
              LET x == (i - 1) * HC + (k - 1) IN <<(x + (i - 1)) % RowsC, x \div RowsC>>]]
Garbage == <<TC>>

----------------------------------------------------------------------------
(* Phases.                                                                   *)
Kinds == CASE Mode = "one"   -> <<"respond1", "sumy", "update1">>
           [] Mode = "multi" -> IF "fused" \in Design THEN <<"respfused">>
                                ELSE <<"respond", "partial", "sumt", "suml", "combine">>
           [] Mode = "batch" -> <<"respond", "updrow", "consist">>
NPh == Len(Kinds)
IsSum(p) == Kinds[p] \in {"sumy", "sumt", "suml"}
NItems == Len(shape.tab)
NTasks(p) == CASE Kinds[p] \in {"respond1", "update1", "combine"} -> ColsC
               [] Kinds[p] \in {"respond", "partial", "updrow", "respfused"} -> Len(rq)
               [] Kinds[p] = "consist" -> NItems
               [] OTHER -> 0
RowOf(k) == IF Mode = "batch" THEN k ELSE 1
Cols == 1..ColsC

\* programs: sequences of micro steps
Load(r, c, x) == <<<<"rl", r>>, <<"buf">>, <<"ld", r, c, x>>>>
Hold(r, c, x) == <<<<"rl", r>>, <<"buf">>, <<"ldhold", r, c, x>>>>
Store(r, c) == <<<<"ww", r>>, <<"wl", r>>, <<"st", r, c>>>>
Flat(ss) == LET RECURSIVE F(_)
                F(k) == IF k > Len(ss) THEN <<>> ELSE ss[k] \o F(k + 1)
            IN F(1)
Update(r, c) == IF "upgrade" \in Design THEN Load(r, c, 1) \o Hold(r, c, 2) \o Store(r, c)
                ELSE Load(r, c, 1) \o Load(r, c, 2) \o Store(r, c)
Prog(p, k) ==
  LET kd == Kinds[p] IN
  CASE kd = "respond1" -> (IF "nested" \in Design THEN <<<<"buf">>, <<"join">>, <<"free">>>> ELSE <<>>)
                          \o Load(1, k, 1) \o <<<<"out">>>>
    [] kd = "update1"  -> Update(1, k)
    [] kd = "respond"  -> Flat([c \in Cols |-> Load(RowOf(k), c, c)]) \o
                          (IF "accumulate" \in Design THEN <<<<"out">>, <<"accld">>, <<"accst">>>> ELSE <<<<"out">>>>)
    [] kd = "respfused" -> Flat([c \in Cols |-> Load(1, c, c)]) \o <<<<"out">>>> \o
                           Flat([c \in Cols |-> Update(1, c)])
    [] kd = "partial"  -> Flat([c \in Cols |-> Load(1, c, c)]) \o <<<<"out">>>>
    [] kd = "updrow"   -> Flat([c \in Cols |-> Update(k, c)])
    [] kd = "combine"  -> Load(1, k, 1) \o <<<<"rl", 1>>, <<"ldn", 1, k, 2>>>> \o Store(1, k)
    [] kd = "consist"  ->
         LET pos == shape.tab[k]
             at(j) == <<pos[j][1] + 1, pos[j][2] + 1>>
         IN Flat([j \in 1..HC |-> Load(at(1)[1], at(1)[2], j)])
            \o <<<<"rl", at(1)[1]>>, <<"ldn", at(1)[1], at(1)[2], HC + 1>>>>
            \o Flat([j \in 1..(HC - 1) |-> Load(at(j + 1)[1], at(j + 1)[2], HC + 1 + j)])
            \o IF "holdall" \in Design
               THEN Flat([j \in 1..HC |-> <<<<"ww", at(j)[1]>>, <<"wl", at(j)[1]>>>>])
                    \o Flat([j \in 1..HC |-> <<<<"st", at(j)[1], at(j)[2]>>>>])
               ELSE Flat([j \in 1..HC |-> Store(at(j)[1], at(j)[2])])
    [] OTHER -> <<>>

\* what a task computes from its registers
Sc(s, x) == VScale(TC, s, x)
Result(p, k, reg) ==
  LET kd == Kinds[p] IN
  CASE kd = "respond1" -> Sc(sel[1][k], reg[1])
    [] kd \in {"respond", "respfused"} -> VSum(TC, 1, [c \in Cols |-> Sc(sel[k][c], reg[c])])
    [] kd = "partial" -> [c \in Cols |-> Sc(sel[k][c], CMux(rq[k].wr, reg[c], rq[k].data))]
    [] OTHER -> <<0>>
SumOut(p) == IF outs[p] = <<>> THEN [c \in Cols |-> <<0>>] ELSE outs[p][1]
NewCell(p, k, r, c, reg) ==
  LET kd == Kinds[p] IN
  CASE kd \in {"update1", "updrow", "respfused"} ->
         LET q == IF kd = "update1" THEN 1 ELSE k
         IN CMux(sel[q][c], reg[2], CMux(rq[q].wr, reg[1], rq[q].data))
    [] kd = "combine" -> VAdd(TC, VSub(TC, reg[2], Sc(SumOut(4)[k][1], reg[1])), SumOut(3)[k])
    [] kd = "consist" ->
         LET pos == shape.tab[k]
             s(j) == rq[pos[j][1] + 1].wr * sel[pos[j][1] + 1][pos[j][2] + 1]
             v1s == VSum(TC, 1, [j \in 1..HC |-> Sc(s(j), reg[j])])
             rest == VSum(TC, 1, [j \in 1..HC |-> Sc(s(j), IF j = 1 THEN reg[1] ELSE reg[HC + j])])
         IN VAdd(TC, VSub(TC, reg[HC + 1], v1s), rest)
    [] OTHER -> <<0>>
\* reduction phases: what they start from, how two partial results combine, the neutral one
SegsOf(p) ==
  CASE Kinds[p] = "sumy" -> [k \in Cols |-> outs[1][k]]
    [] Kinds[p] = "sumt" -> [k \in DOMAIN rq |-> outs[2][k]]
    [] Kinds[p] = "suml" -> [k \in DOMAIN rq |-> [c \in Cols |-> <<sel[k][c]>>]]
    [] OTHER -> <<>>
Plus(p, x, y) == CASE Kinds[p] = "sumy" -> VAdd(TC, x, y)
                   [] Kinds[p] = "sumt" -> [c \in Cols |-> VAdd(TC, x[c], y[c])]
                   [] OTHER -> [c \in Cols |-> <<x[c][1] + y[c][1]>>]
Neutral(p) == LET z == IF "identity" \in Design THEN <<1>> ELSE <<0>> IN
              IF Kinds[p] = "sumy" THEN z ELSE [c \in Cols |-> z]

----------------------------------------------------------------------------
RowQ(bits, wr, v) == [bits |-> bits, wr |-> wr, data |-> <<v>>]
NReq == CASE Mode = "one" -> 1 [] Mode = "multi" -> Requests [] Mode = "batch" -> RowsC
RowQs == {RowQ(EncBits(c, ColsC), wr, v) : c \in 0..(ColsC - 1), wr \in 0..1, v \in {TC - 1}}
\* the cells are fixed and distinct enough; replicas agree.  Two writes never meet.
Wr(q, i) == {k \in DOMAIN q : q[k].wr = 1 /\ Selectors(q[k].bits)[i] = 1}
Fits(q) == IF Mode = "batch"
           THEN \A i \in DOMAIN shape.tab : Cardinality({k \in 1..HC :
                  LET p == shape.tab[i][k] IN q[p[1] + 1].wr = 1 /\ Selectors(q[p[1] + 1].bits)[p[2] + 1] = 1}) <= 1
           ELSE \A c \in Cols : Cardinality(Wr(q, c)) <= 1
\* requests that differ only in the order of their queries behave alike
Canon(q) == Mode # "multi" \/ \A k \in 1..(Len(q) - 1) :
              LET n(x) == ISum([l \in DOMAIN x.bits |-> x.bits[l] * Pow2(l)]) * 2 + x.wr IN n(q[k]) <= n(q[k + 1])

Init ==
  /\ shape = MkShape(RowsC, ColsC, HC, TC, 1, FixedTab)
  /\ cells = Setup(shape, [i \in DOMAIN FixedTab |-> <<i % TC>>])
  /\ pend = [x \in {} |-> 0] /\ last = NoStep
  /\ \E q \in [1..NReq -> RowQs] :
       /\ Fits(q) /\ Canon(q)
       /\ rq = q
       /\ sel = [k \in DOMAIN q |-> Selectors(q[k].bits)]
       /\ want = CASE Mode = "one" -> LET s == OneStep(q[1]) IN [ys |-> <<s.y>>, cells |-> s.cells]
                   [] Mode = "multi" -> LET s == MultiStep(q) IN [ys |-> s.ys, cells |-> s.cells]
                   [] Mode = "batch" -> LET s == BatchStep(q) IN [ys |-> s.ys, cells |-> s.cells]
  /\ ph = 1
  /\ todo = 1..NTasks(1)
  /\ seg = <<>>
  /\ wk = [w \in W |-> <<>>]
  /\ outs = [p \in 1..NPh |-> [k \in 1..NTasks(p) |-> <<0>>]]
  /\ rl = [r \in 1..RowsC |-> {}] /\ ww = [r \in 1..RowsC |-> {}] /\ wl = [r \in 1..RowsC |-> -1]
  /\ bo = [b \in 1..NBuf |-> -1] /\ bc = [b \in 1..NBuf |-> <<>>]
  /\ acc = <<0>> /\ bad = ""

Const == UNCHANGED <<ovars, rq, sel, want>>
Const2 == UNCHANGED <<shape, pend, last, rq, sel, want>>

----------------------------------------------------------------------------
(* A worker takes a task: when it is idle, or while it waits at a join.      *)
Take(w, k) ==
  /\ k \in todo
  /\ IF w = 0 THEN NTasks(ph) = 1 ELSE ~(Outside /\ NTasks(ph) = 1)
  /\ \/ wk[w] = <<>>
     \/ wk[w] # <<>> /\ LET f == Head(wk[w]) IN Prog(f.ph, f.task)[f.pc][1] = "join"
  /\ wk' = [wk EXCEPT ![w] = <<[ph |-> ph, task |-> k, pc |-> 1, reg |-> [x \in 1..(2 * HC + ColsC + 1) |-> <<0>>]]>> \o @]
  /\ todo' = todo \ {k}
  /\ Const /\ UNCHANGED <<ph, outs, seg, rl, wl, ww, bo, bc, acc, bad>>

Frame(w) == Head(wk[w])
Steps(w) == Prog(Frame(w).ph, Frame(w).task)
Op(w) == Steps(w)[Frame(w).pc]
\* after its last step a frame goes away
Advance(w, reg) ==
  wk' = [wk EXCEPT ![w] = IF Frame(w).pc = Len(Steps(w)) THEN Tail(@)
                          ELSE <<[Head(@) EXCEPT !.pc = @ + 1, !.reg = reg]>> \o Tail(@)]
Adv(w) == Advance(w, Frame(w).reg)
Tag(w) == <<w, Frame(w).ph, Frame(w).task, Frame(w).pc>>

\* readers do not overtake a waiting writer
RL(w) == /\ Op(w)[1] = "rl"
         /\ wl[Op(w)[2]] = -1 /\ ww[Op(w)[2]] = {}
         /\ rl' = [rl EXCEPT ![Op(w)[2]] = @ \cup {w}]
         /\ Adv(w) /\ Const /\ UNCHANGED <<ph, todo, outs, seg, wl, ww, bo, bc, acc, bad>>
Buf(w) == /\ Op(w)[1] = "buf"
          /\ IF Panics(w) THEN bad' = "panic" /\ UNCHANGED <<bo, bc, wk>>
             ELSE /\ ("nolock" \in Design \/ bo[Idx(w)] = -1)
                  /\ bo' = [bo EXCEPT ![Idx(w)] = w]
                  /\ bc' = [bc EXCEPT ![Idx(w)] = <<w>>]
                  /\ Adv(w) /\ UNCHANGED bad
          /\ Const /\ UNCHANGED <<ph, todo, outs, seg, rl, wl, ww, acc>>
\* compute with the cell and the buffer, release both
Value(w, r, c) == IF bc[Idx(w)] = <<w>> THEN cells[r][c] ELSE Garbage
LD(w) == /\ Op(w)[1] \in {"ld", "ldhold"}
         /\ Advance(w, [Frame(w).reg EXCEPT ![Op(w)[4]] = Value(w, Op(w)[2], Op(w)[3])])
         /\ rl' = IF Op(w)[1] = "ldhold" THEN rl ELSE [rl EXCEPT ![Op(w)[2]] = @ \ {w}]
         /\ bo' = [bo EXCEPT ![Idx(w)] = -1]
         /\ bc' = [bc EXCEPT ![Idx(w)] = <<>>]
         /\ Const /\ UNCHANGED <<ph, todo, outs, seg, wl, ww, acc, bad>>
LDN(w) == /\ Op(w)[1] = "ldn"
          /\ Advance(w, [Frame(w).reg EXCEPT ![Op(w)[4]] = cells[Op(w)[2]][Op(w)[3]]])
          /\ rl' = [rl EXCEPT ![Op(w)[2]] = @ \ {w}]
          /\ Const /\ UNCHANGED <<ph, todo, outs, seg, wl, ww, bo, bc, acc, bad>>
Free(w) == /\ Op(w)[1] = "free"
           /\ bo' = [bo EXCEPT ![Idx(w)] = -1]
           /\ bc' = [bc EXCEPT ![Idx(w)] = <<>>]
           /\ Adv(w) /\ Const /\ UNCHANGED <<ph, todo, outs, seg, rl, wl, ww, acc, bad>>
Join(w) == /\ Op(w)[1] = "join"
           /\ Adv(w) /\ Const /\ UNCHANGED <<ph, todo, outs, seg, rl, wl, ww, bo, bc, acc, bad>>
WW(w) == /\ Op(w)[1] = "ww"
         /\ ww' = [ww EXCEPT ![Op(w)[2]] = @ \cup {w}]
         /\ Adv(w) /\ Const /\ UNCHANGED <<ph, todo, outs, seg, rl, wl, bo, bc, acc, bad>>
WL(w) == /\ Op(w)[1] = "wl"
         /\ rl[Op(w)[2]] = {} /\ wl[Op(w)[2]] = -1
         /\ wl' = [wl EXCEPT ![Op(w)[2]] = w]
         /\ ww' = [ww EXCEPT ![Op(w)[2]] = @ \ {w}]
         /\ Adv(w) /\ Const /\ UNCHANGED <<ph, todo, outs, seg, rl, bo, bc, acc, bad>>
ST(w) == /\ Op(w)[1] = "st"
         /\ cells' = [cells EXCEPT ![Op(w)[2]][Op(w)[3]] = NewCell(Frame(w).ph, Frame(w).task, Op(w)[2], Op(w)[3], Frame(w).reg)]
         /\ wl' = [wl EXCEPT ![Op(w)[2]] = -1]
         /\ Adv(w) /\ Const2 /\ UNCHANGED <<ph, todo, outs, seg, rl, ww, bo, bc, acc, bad>>
Out(w) == /\ Op(w)[1] = "out"
          /\ outs' = [outs EXCEPT ![Frame(w).ph][Frame(w).task] = Result(Frame(w).ph, Frame(w).task, Frame(w).reg)]
          /\ Adv(w) /\ Const /\ UNCHANGED <<ph, todo, seg, rl, wl, ww, bo, bc, acc, bad>>
\* a deviation: results are added into one place, in two steps
AccLd(w) == /\ Op(w)[1] = "accld"
            /\ Advance(w, [Frame(w).reg EXCEPT ![1] = acc])
            /\ Const /\ UNCHANGED <<ph, todo, outs, seg, rl, wl, ww, bo, bc, acc, bad>>
AccSt(w) == /\ Op(w)[1] = "accst"
            /\ acc' = VAdd(TC, Frame(w).reg[1], outs[Frame(w).ph][Frame(w).task])
            /\ Adv(w) /\ Const /\ UNCHANGED <<ph, todo, outs, seg, rl, wl, ww, bo, bc, bad>>

Step(w) == /\ wk[w] # <<>>
           /\ RL(w) \/ Buf(w) \/ LD(w) \/ LDN(w) \/ Free(w) \/ Join(w) \/ WW(w) \/ WL(w) \/ ST(w) \/ Out(w)
              \/ AccLd(w) \/ AccSt(w)

\* reductions: two neighbours combine, or a neutral element is folded in
MergeAt(k) ==
  /\ ph <= NPh /\ IsSum(ph) /\ k \in 1..(Len(seg) - 1)
  /\ seg' = SubSeq(seg, 1, k - 1) \o <<Plus(ph, seg[k], seg[k + 1])>> \o SubSeq(seg, k + 2, Len(seg))
  /\ Const /\ UNCHANGED <<ph, todo, wk, outs, rl, wl, ww, bo, bc, acc, bad>>
\* a reduction of n values has at least one leaf, each starting from a neutral element
Barrier ==
  /\ bad = "" /\ ph <= NPh /\ todo = {}
  /\ "nobarrier" \in Design \/ \A w \in W : wk[w] = <<>>
  /\ IF IsSum(ph)
     THEN /\ Len(seg) <= 1
          /\ outs' = [outs EXCEPT ![ph] = <<IF seg = <<>> THEN Neutral(ph) ELSE Plus(ph, Neutral(ph), seg[1])>>]
     ELSE UNCHANGED outs
  /\ ph' = ph + 1
  /\ todo' = IF ph + 1 <= NPh THEN 1..NTasks(ph + 1) ELSE {}
  /\ seg' = IF ph + 1 <= NPh /\ IsSum(ph + 1) THEN SegsOf(ph + 1) ELSE <<>>
  /\ Const /\ UNCHANGED <<wk, rl, wl, ww, bo, bc, acc, bad>>

Done == ph > NPh /\ \A w \in W : wk[w] = <<>>
Next == \/ bad = "" /\ \E w \in W : (\E k \in todo : Take(w, k)) \/ Step(w)
        \/ bad = "" /\ \E k \in 1..Len(seg) : MergeAt(k)
        \/ Barrier
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
Ys == CASE Mode = "one" -> outs[2] [] OTHER -> outs[1]
\* C06: the outcome does not depend on the schedule
SameResponses == Done => Ys = want.ys
SameCells == Done => cells = want.cells
Accumulated == (Done /\ "accumulate" \in Design) => acc = VSum(TC, 1, want.ys)
NoPanic == bad = ""
\* a thread never waits for a lock it holds itself (checked by the absence of deadlock), locks exclude
Exclusion == /\ \A r \in 1..RowsC : wl[r] # -1 => rl[r] = {}
             /\ \A w \in W : Cardinality({b \in 1..NBuf : bo[b] = w}) <= 1
Quiet == Done => /\ \A r \in 1..RowsC : rl[r] = {} /\ wl[r] = -1 /\ ww[r] = {}
                 /\ \A b \in 1..NBuf : bo[b] = -1
Terminates == <>(Done \/ bad # "")
=============================================================================
