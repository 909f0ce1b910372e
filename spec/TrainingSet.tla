---------------------------- MODULE TrainingSet ----------------------------
(***************************************************************************)
(* Training sets over a heap of phrases.  A set maps indices to phrase      *)
(* objects; phrase objects may also be held by the caller (handles), and    *)
(* the same object may be in a set and in a handle.  The phrase calls are   *)
(* those of module Phrase: its slots are the heap cells here.               *)
(***************************************************************************)
EXTENDS Phrase
CONSTANTS TSlots,      \* training set variables of the caller
          HSlots,      \* phrase handles of the caller
          IdxOrder,    \* indices, increasing
          LabelOrder   \* labels, in byte order

DeadSet == [alive |-> FALSE, bi |-> FALSE, dim |-> 0, din |-> 0, cols |-> <<>>, m |-> [i \in {} |-> 0]]
FreshSet(bi) == [DeadSet EXCEPT !.alive = TRUE, !.bi = bi, !.dim = IF bi THEN 2 ELSE 1, !.din = IF bi THEN 1 ELSE 0,
                                !.cols = IF bi THEN <<"", "">> ELSE <<"">>]
TInit == [ph |-> [p \in Slots |-> Dead], buf |-> [b \in Buffers |-> InitBuf(b)],
          ts |-> [t \in TSlots |-> DeadSet], h |-> [k \in HSlots |-> 0]]

Indices(s) == SelectSeq(IdxOrder, LAMBDA i : i \in DOMAIN s.m)
LabelSet(st, s) == {st.ph[s.m[i]].label : i \in DOMAIN s.m}
LabelSeq(st, s) == SelectSeq(LabelOrder, LAMBDA l : l \in LabelSet(st, s))
ClassIdx(st, s, l) == SelectSeq(Indices(s), LAMBDA i : st.ph[s.m[i]].label = l)

\* ------------------------------------------------------------ observations
ProjCell(st, p) == LET ph == st.ph[p] IN
  [label |-> ph.label, bi |-> ph.bi, dim |-> ph.dim, din |-> ph.din, cols |-> Names(ph), size |-> Size(ph),
   fin |-> InF(st, ph), fout |-> OutF(st, ph)]
ProjSet(st, s) ==
  IF ~s.alive THEN [alive |-> FALSE]
  ELSE [alive |-> TRUE, bi |-> s.bi, dim |-> s.dim, din |-> s.din, cols |-> s.cols,
        size |-> Len(Indices(s)), empty |-> Indices(s) = <<>>, idx |-> Indices(s),
        phr |-> [k \in 1 .. Len(Indices(s)) |-> ProjCell(st, s.m[Indices(s)[k]])],
        labels |-> LabelSeq(st, s),
        cls |-> [k \in 1 .. Len(LabelSeq(st, s)) |->
                  [l |-> LabelSeq(st, s)[k], bi |-> s.bi, dim |-> s.dim, din |-> s.din, cols |-> s.cols,
                   idx |-> ClassIdx(st, s, LabelSeq(st, s)[k]), same |-> TRUE]]]
ProjHandle(st, k) ==
  IF st.h[k] = 0 THEN [held |-> FALSE]
  ELSE [held |-> TRUE, ph |-> ProjCell(st, st.h[k]),
        at |-> [t \in TSlots |-> SelectSeq(Indices(st.ts[t]), LAMBDA i : st.ts[t].m[i] = st.h[k])]]
TProj(st) == [ts |-> [t \in TSlots |-> ProjSet(st, st.ts[t])], h |-> [k \in HSlots |-> ProjHandle(st, k)]]

\* ------------------------------------------------------------------ the heap
Used(st) == {st.h[k] : k \in HSlots} \cup UNION {{st.ts[t].m[i] : i \in DOMAIN st.ts[t].m} : t \in TSlots}
Gc(st) == [st EXCEPT !.ph = [p \in Slots |-> IF p \in Used(st) THEN st.ph[p] ELSE Dead]]
Free(st) == CHOOSE p \in Slots : ~st.ph[p].alive /\ \A q \in Slots : q < p => st.ph[q].alive
TRet(st) == [st |-> Gc(st), r |-> Void]
Extend(m, i, p) == [k \in DOMAIN m \cup {i} |-> IF k = i THEN p ELSE m[k]]
Drop(m, i) == [k \in DOMAIN m \ {i} |-> m[k]]

\* a new cell with value ph stored at index i of set t
PutNew(st, t, i, ph) == LET p == Free(st) IN
  [st EXCEPT !.ph[p] = ph, !.ts[t].m = Extend(@, i, p)]
RECURSIVE PutAll(_, _, _)
PutAll(st, t, pairs) == IF pairs = <<>> THEN st
  ELSE PutAll(PutNew(st, t, Head(pairs)[1], Head(pairs)[2]), t, Tail(pairs))
Pairs(st, s) == [k \in 1 .. Len(Indices(s)) |-> <<Indices(s)[k], st.ph[s.m[Indices(s)[k]]]>>]
\* a set that is read gives its column names to its phrases
LoadedPairs(st, s) == [k \in 1 .. Len(Indices(s)) |-> <<Indices(s)[k], [Loaded(st, st.ph[s.m[Indices(s)[k]]]) EXCEPT !.cols = s.cols]>>]

\* every phrase of set t gets value F(phrase)
OnCells(st, cells, F(_)) == [st EXCEPT !.ph = [p \in Slots |-> IF p \in cells THEN F(st.ph[p]) ELSE st.ph[p]]]
Cells(st, t) == {st.ts[t].m[i] : i \in DOMAIN st.ts[t].m}

\* ------------------------------------------------------------------- calls
Resize(cols, d) == [k \in 1 .. d |-> IF k <= Len(cols) THEN cols[k] ELSE ""]
AddFresh(st, t, i, l) == LET s == st.ts[t] IN
  TRet(PutNew(st, t, i, [Fresh(TRUE, s.bi) EXCEPT !.dim = s.dim, !.din = s.din, !.cols = s.cols, !.label = l]))
TSetDim(st, t, d) == LET s == st.ts[t] IN
  IF d < (IF s.bi THEN 2 ELSE 1) THEN Refuse(st)
  ELSE LET din == IF s.bi /\ s.din > d - 1 THEN d - 1 ELSE s.din
           st1 == [st EXCEPT !.ts[t].dim = d, !.ts[t].din = din, !.ts[t].cols = Resize(@, d)]
           F(ph) == [NoData(ph) EXCEPT !.dim = d, !.cols = Resize(@, d),
                                       !.din = IF ph.bi /\ @ > d - 1 THEN d - 1 ELSE @]
       IN TRet(OnCells(st1, Cells(st, t), F))
TSetDin(st, t, d) == LET s == st.ts[t] IN
  IF (~s.bi /\ d # 0) \/ (s.bi /\ (d < 1 \/ d > s.dim - 1)) THEN Refuse(st)
  ELSE LET F(ph) == [NoData(ph) EXCEPT !.din = d, !.cols = Resize(@, ph.dim)]
       IN TRet(OnCells([st EXCEPT !.ts[t].din = d], Cells(st, t), F))
TSetCols(st, t, c) ==
  IF Len(c) # st.ts[t].dim THEN Refuse(st)
  ELSE LET F(ph) == [ph EXCEPT !.cols = c] IN TRet(OnCells([st EXCEPT !.ts[t].cols = c], Cells(st, t), F))
RemoveClass(st, t, l) ==
  TRet([st EXCEPT !.ts[t].m = [i \in {j \in DOMAIN @ : st.ph[@[j]].label # l} |-> @[i]]])
OnPhrase(st, p, x) == [st |-> Gc(x.st), r |-> x.r]

\* the calls on the phrase at index i of set t: absent phrases are not touched
AtPhrase(st, t, i, R(_)) ==
  IF i \in DOMAIN st.ts[t].m THEN LET x == R(st.ts[t].m[i]) IN [st |-> Gc(x.st), r |-> x.r]
  ELSE Give(st, "none")

AllJoint(st, s) == LET RECURSIVE Cat(_)
                       Cat(is) == IF is = <<>> THEN <<>> ELSE Joint(st, st.ph[s.m[Head(is)]]) \o Cat(Tail(is))
                   IN Cat(Indices(s))
AllIn(st, s) == LET RECURSIVE Cat(_)
                    Cat(is) == IF is = <<>> THEN <<>> ELSE InF(st, st.ph[s.m[Head(is)]]) \o Cat(Tail(is))
                IN Cat(Indices(s))
AllOut(st, s) == LET RECURSIVE Cat(_)
                     Cat(is) == IF is = <<>> THEN <<>> ELSE OutF(st, st.ph[s.m[Head(is)]]) \o Cat(Tail(is))
                 IN Cat(Indices(s))
\* minima and maxima also see frames recorded in one modality only
RangeOf(st, s, d) == IF s.bi /\ d > s.din THEN ColumnSet(AllOut(st, s), d - s.din) ELSE ColumnSet(AllIn(st, s), d)
SetStats(st, t) == LET s == st.ts[t] fr == AllJoint(st, s) full == \A d \in 1 .. s.dim : RangeOf(st, s, d) # {} IN
  [mean |-> [d \in 1 .. s.dim |-> MeanOf(fr, d)], std |-> [d \in 1 .. s.dim |-> StdOf(fr, d)],
   min |-> IF full THEN [d \in 1 .. s.dim |-> SetMin(RangeOf(st, s, d))] ELSE <<>>,
   max |-> IF full THEN [d \in 1 .. s.dim |-> SetMax(RangeOf(st, s, d))] ELSE <<>>]
\* complete frames of the normalised set, phrase after phrase
Normalised(st, t) == LET s == st.ts[t] fr == AllJoint(st, s) IN
  [k \in 1 .. Len(fr) |-> [d \in 1 .. s.dim |-> FDiv(FSub(FInt(fr[k][d]), MeanOf(fr, d)), StdOf(fr, d))]]

TRescale(st, t, off, gain) ==
  LET F(ph) == [ph EXCEPT
        !.fin = ScaleF(@, Size(ph), off, gain),
        !.fout = ScaleF(@, Size(ph), SubSeq(off, ph.din + 1, ph.dim), SubSeq(gain, ph.din + 1, ph.dim))]
  IN TRet(OnCells(st, Cells(st, t), F))

TApply(st, op) ==
  CASE op.o = "new" -> TRet([st EXCEPT !.ts[op.t] = FreshSet(op.bi)])
    [] op.o = "copy" -> TRet(PutAll([st EXCEPT !.ts[op.t] = [st.ts[op.u] EXCEPT !.m = [i \in {} |-> 0]]], op.t, Pairs(st, st.ts[op.u])))
    [] op.o = "assign" -> IF op.t = op.u THEN TRet(st)
        ELSE TRet(PutAll([st EXCEPT !.ts[op.t] = [st.ts[op.u] EXCEPT !.m = [i \in {} |-> 0]]], op.t, Pairs(st, st.ts[op.u])))
    [] op.o \in {"json", "jsonnew"} ->
         LET ps == LoadedPairs(st, st.ts[op.u])
         IN TRet(PutAll([st EXCEPT !.ts[op.t] = [st.ts[op.u] EXCEPT !.m = [i \in {} |-> 0]]], op.t, ps))
    [] op.o = "del" -> TRet([st EXCEPT !.ts[op.t] = DeadSet])
    [] op.o = "clear" -> TRet([st EXCEPT !.ts[op.t].m = [i \in {} |-> 0]])
    [] op.o = "add" -> AddFresh(st, op.t, op.i, op.l)
    [] op.o = "addcopy" -> TRet(PutNew(st, op.t, op.i, st.ph[st.h[op.k]]))
    [] op.o = "addptr" -> TRet([st EXCEPT !.ts[op.t].m = Extend(@, op.i, st.h[op.k])])
    [] op.o = "rm" -> TRet([st EXCEPT !.ts[op.t].m = Drop(@, op.i)])
    [] op.o = "rmclass" -> RemoveClass(st, op.t, op.l)
    [] op.o = "rmfirst" -> IF LabelSeq(st, st.ts[op.t]) = <<>> THEN TRet(st)
                           ELSE RemoveClass(st, op.t, LabelSeq(st, st.ts[op.t])[1])
    [] op.o = "hget" -> TRet([st EXCEPT !.h[op.k] = IF op.i \in DOMAIN st.ts[op.t].m THEN st.ts[op.t].m[op.i] ELSE 0])
    [] op.o = "hnew" -> LET p == Free(st) s == st.ts[op.t] IN
         TRet([st EXCEPT !.h[op.k] = p,
               !.ph[p] = [Fresh(TRUE, s.bi) EXCEPT !.dim = s.dim, !.din = s.din, !.label = op.l, !.cols = Resize(<<>>, s.dim)]])
    [] op.o = "hdrop" -> TRet([st EXCEPT !.h[op.k] = 0])
    [] op.o = "hlabel" -> TRet([st EXCEPT !.ph[st.h[op.k]].label = op.l])
    [] op.o = "hassign" -> TRet([st EXCEPT !.ph[st.h[op.k]] = st.ph[st.h[op.j]]])
    [] op.o = "hjson" -> TRet([st EXCEPT !.ph[st.h[op.k]] = Loaded(st, st.ph[st.h[op.j]])])
    [] op.o = "plabel" -> AtPhrase(st, op.t, op.i, LAMBDA p : [st |-> [st EXCEPT !.ph[p].label = op.l], r |-> Void])
    [] op.o = "rec" -> AtPhrase(st, op.t, op.i, LAMBDA p : Record(st, p, op.v))
    [] op.o = "recin" -> AtPhrase(st, op.t, op.i, LAMBDA p : RecordIn(st, p, op.v))
    [] op.o = "recout" -> AtPhrase(st, op.t, op.i, LAMBDA p : RecordOut(st, p, op.v))
    [] op.o = "tdim" -> TSetDim(st, op.t, op.d)
    [] op.o = "tdin" -> TSetDin(st, op.t, op.d)
    [] op.o = "tcols" -> TSetCols(st, op.t, op.c)
    [] op.o = "getp" -> Give(st, op.i \in DOMAIN st.ts[op.t].m)
    [] op.o = "getc" -> Give(st, op.l \in LabelSet(st, st.ts[op.t]))
    [] op.o = "stats" -> Give(st, SetStats(st, op.t))
    [] op.o = "norm" -> Give(st, Normalised(st, op.t))
    [] op.o = "rescale" -> TRescale(st, op.t, op.off, op.gain)

\* -------------------------------------------------------------- invariants
\* the class views partition the phrases by label
ViewsOK(st) == \A t \in TSlots : LET s == st.ts[t] P == ProjSet(st, s) IN s.alive =>
  /\ \A i \in DOMAIN s.m : st.ph[s.m[i]].alive
  /\ \A k \in 1 .. Len(P.cls) : P.cls[k].idx # <<>>
  /\ \A i \in DOMAIN s.m : \E k \in 1 .. Len(P.cls) : \E n \in 1 .. Len(P.cls[k].idx) :
        P.cls[k].idx[n] = i /\ P.cls[k].l = st.ph[s.m[i]].label
\* one shape
ShapeOK(st) == \A t \in TSlots : LET s == st.ts[t] IN s.alive =>
  /\ Len(s.cols) = s.dim /\ (IF s.bi THEN s.din \in 1 .. s.dim - 1 ELSE s.din = 0)
  /\ \A i \in DOMAIN s.m : LET ph == st.ph[s.m[i]] IN ph.bi = s.bi /\ ph.dim = s.dim /\ ph.din = s.din
=============================================================================
