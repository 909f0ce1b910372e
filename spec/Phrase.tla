------------------------------ MODULE Phrase ------------------------------
(***************************************************************************)
(* The phrase: a recording buffer of one or two modalities, either owning  *)
(* its frames or bound to buffers of the caller.  The state is a few phrase *)
(* slots (variables of a user program) and a few external buffers.          *)
(* The library is sequential here, so a transition is one public call:      *)
(* Apply(st, op) is the state after the call and its result.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, XM

CONSTANTS Slots, BufLen

Dead == [alive |-> FALSE, own |-> TRUE, bi |-> FALSE, dim |-> 0, din |-> 0, label |-> "",
         cols |-> <<>>, fin |-> <<>>, fout |-> <<>>, bin |-> "", lin |-> 0, bout |-> "", lout |-> 0]

Fresh(own, bi) ==
  [Dead EXCEPT !.alive = TRUE, !.own = own, !.bi = bi,
               !.dim = IF bi THEN 2 ELSE 1, !.din = IF bi THEN 1 ELSE 0]

Buffers == {"X", "Y"}
InitBuf(b) == [i \in 1 .. BufLen |-> IF b = "X" THEN i ELSE 100 + i]
InitSt == [ph |-> [p \in Slots |-> Dead], buf |-> [b \in Buffers |-> InitBuf(b)]]

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, Min(n, Len(s)))

\* ------------------------------------------------------------ observations
WIn(ph) == IF ph.bi THEN ph.din ELSE ph.dim          \* width of a frame, first array
WOut(ph) == IF ph.bi THEN ph.dim - ph.din ELSE 0
View(st, b, len, w) == [i \in 1 .. len |-> [d \in 1 .. w |-> st.buf[b][(i - 1) * w + d]]]
InF(st, ph) == IF ph.own THEN ph.fin ELSE IF ph.bin = "" THEN <<>> ELSE View(st, ph.bin, ph.lin, WIn(ph))
OutF(st, ph) == IF ph.own THEN ph.fout ELSE IF ph.bout = "" THEN <<>> ELSE View(st, ph.bout, ph.lout, WOut(ph))
LIn(ph) == IF ph.own THEN Len(ph.fin) ELSE ph.lin
LOut(ph) == IF ph.own THEN Len(ph.fout) ELSE ph.lout
Size(ph) == IF ph.bi THEN Min(LIn(ph), LOut(ph)) ELSE LIn(ph)
Empty(ph) == IF ph.bi THEN Max(LIn(ph), LOut(ph)) = 0 ELSE LIn(ph) = 0
Names(ph) == [d \in 1 .. ph.dim |-> IF d <= Len(ph.cols) THEN ph.cols[d] ELSE ""]

\* of long phrases only a selection of the frames is compared
Sel(s) == IF Len(s) <= 12 THEN s
          ELSE LET idx == <<1, 2, Len(s) \div 2, 255, 256, 257, 258, 512, 513, Len(s) - 1, Len(s)>>
               IN [k \in 1 .. Len(idx) |-> IF idx[k] \in 1 .. Len(s) THEN s[idx[k]] ELSE <<>>]

ProjPh(st, ph) ==
  IF ~ph.alive THEN [alive |-> FALSE]
  ELSE [alive |-> TRUE, own |-> ph.own, bi |-> ph.bi, dim |-> ph.dim, din |-> ph.din,
        label |-> ph.label, cols |-> Names(ph), size |-> Size(ph), lin |-> LIn(ph),
        lout |-> LOut(ph), empty |-> Empty(ph),
        fin |-> Sel(InF(st, ph)), fout |-> Sel(OutF(st, ph))]
Proj(st) == [ph |-> [p \in Slots |-> ProjPh(st, st.ph[p])], buf |-> st.buf]

\* ---------------------------------------------------------------- results
Ok(v) == [k |-> "ok", v |-> v]
Void == Ok(0)
Exc == [k |-> "exc", v |-> 0]
Ret(st, p, ph) == [st |-> [st EXCEPT !.ph[p] = ph], r |-> Void]
Refuse(st) == [st |-> st, r |-> Exc]
Give(st, v) == [st |-> st, r |-> Ok(v)]

NoData(ph) == [ph EXCEPT !.fin = <<>>, !.fout = <<>>, !.bin = "", !.lin = 0, !.bout = "", !.lout = 0]
PadCols(ph) == [ph EXCEPT !.cols = Names(ph)]

\* ------------------------------------------------------------------ calls
Record(st, p, v) ==
  LET ph == st.ph[p] IN
  IF ~ph.own \/ (ph.bi /\ LIn(ph) # LOut(ph)) \/ Len(v) # ph.dim THEN Refuse(st)
  ELSE IF ph.bi THEN Ret(st, p, [ph EXCEPT !.fin = Append(@, SubSeq(v, 1, ph.din)),
                                           !.fout = Append(@, SubSeq(v, ph.din + 1, ph.dim))])
  ELSE Ret(st, p, [ph EXCEPT !.fin = Append(@, v)])

RecordIn(st, p, v) ==
  LET ph == st.ph[p] IN
  IF ~ph.own \/ ~ph.bi \/ Len(v) # ph.din THEN Refuse(st)
  ELSE Ret(st, p, [ph EXCEPT !.fin = Append(@, v)])

RecordOut(st, p, v) ==
  LET ph == st.ph[p] IN
  IF ~ph.own \/ ~ph.bi \/ Len(v) # ph.dim - ph.din THEN Refuse(st)
  ELSE Ret(st, p, [ph EXCEPT !.fout = Append(@, v)])

\* n joint recordings of generated frames (growth past the allocation block)
FillFrame(base, i, w, off) == [d \in 1 .. w |-> base + 10 * i + d + off]
Fill(st, p, n, base) ==
  LET ph == st.ph[p] IN
  IF ~ph.own \/ (ph.bi /\ LIn(ph) # LOut(ph)) THEN Refuse(st)
  ELSE Ret(st, p, [ph EXCEPT
         !.fin = @ \o [i \in 1 .. n |-> FillFrame(base, i, WIn(ph), 0)],
         !.fout = IF ph.bi THEN @ \o [i \in 1 .. n |-> FillFrame(base, i, WOut(ph), ph.din)] ELSE @])
\* n recordings in one modality only
FillOne(st, p, n, base, out) ==
  LET ph == st.ph[p] IN
  IF ~ph.own \/ ~ph.bi THEN Refuse(st)
  ELSE Ret(st, p, [ph EXCEPT
         !.fin = IF out THEN @ ELSE @ \o [i \in 1 .. n |-> FillFrame(base, i, WIn(ph), 0)],
         !.fout = IF out THEN @ \o [i \in 1 .. n |-> FillFrame(base, i, WOut(ph), 0)] ELSE @])

Clear(st, p, what) ==
  LET ph == st.ph[p] IN
  IF ~ph.own THEN Refuse(st)
  ELSE Ret(st, p, [ph EXCEPT !.fin = IF what \in {"all", "in"} \/ ~ph.bi THEN <<>> ELSE @,
                             !.fout = IF what \in {"all", "out"} \/ ~ph.bi THEN <<>> ELSE @])

SetDim(st, p, d) ==
  LET ph == st.ph[p] IN
  IF d < (IF ph.bi THEN 2 ELSE 1) THEN Refuse(st)
  ELSE Ret(st, p, PadCols([NoData(ph) EXCEPT !.dim = d, !.cols = SubSeq(@, 1, Min(d, Len(@))),
                                             !.din = IF ph.bi /\ @ > d - 1 THEN d - 1 ELSE @]))
SetDin(st, p, d) ==
  LET ph == st.ph[p] IN
  IF (~ph.bi /\ d # 0) \/ (ph.bi /\ (d < 1 \/ d > ph.dim - 1)) THEN Refuse(st)
  ELSE Ret(st, p, PadCols([NoData(ph) EXCEPT !.din = d]))

GetValue(st, p, i, d) ==     \* i, d from 0
  LET ph == st.ph[p] IN
  IF d >= ph.dim THEN Refuse(st)
  ELSE IF ph.bi /\ d >= ph.din
       THEN IF i >= LOut(ph) THEN Refuse(st) ELSE Give(st, OutF(st, ph)[i + 1][d - ph.din + 1])
       ELSE IF i >= LIn(ph) THEN Refuse(st) ELSE Give(st, InF(st, ph)[i + 1][d + 1])

Pointer(st, p, i, which) ==
  LET ph == st.ph[p] IN
  IF i >= Size(ph) \/ (which = "all") = ph.bi THEN Refuse(st)
  ELSE Give(st, IF which = "out" THEN OutF(st, ph)[i + 1] ELSE InF(st, ph)[i + 1])

Connect(st, p, b, len) ==
  LET ph == st.ph[p] IN
  IF ph.own \/ ph.bi THEN Refuse(st)
  ELSE Ret(st, p, [ph EXCEPT !.bin = b, !.lin = len])
Connect2(st, p, b, c, len) ==
  LET ph == st.ph[p] IN
  IF ph.own \/ ~ph.bi THEN Refuse(st)
  ELSE Ret(st, p, [ph EXCEPT !.bin = b, !.lin = len, !.bout = c, !.lout = len])
ConnectIn(st, p, b, len) ==
  LET ph == st.ph[p] IN
  IF ph.own \/ ~ph.bi THEN Refuse(st) ELSE Ret(st, p, [ph EXCEPT !.bin = b, !.lin = len])
ConnectOut(st, p, b, len) ==
  LET ph == st.ph[p] IN
  IF ph.own \/ ~ph.bi THEN Refuse(st) ELSE Ret(st, p, [ph EXCEPT !.bout = b, !.lout = len])
Disconnect(st, p) ==
  LET ph == st.ph[p] IN IF ph.own THEN Refuse(st) ELSE Ret(st, p, NoData(ph))

\* ------------------------------------------------------- statistics, scaling
Joint(st, ph) == [i \in 1 .. Size(ph) |-> IF ph.bi THEN InF(st, ph)[i] \o OutF(st, ph)[i] ELSE InF(st, ph)[i]]
Column(fr, d) == [i \in 1 .. Len(fr) |-> FInt(fr[i][d])]
MeanOf(fr, d) == FDiv(FSum(Column(fr, d)), FInt(Len(fr)))
StdOf(fr, d) == LET m == MeanOf(fr, d) IN
  FSqrt(FDiv(FSum([i \in 1 .. Len(fr) |-> LET x == FSub(FInt(fr[i][d]), m) IN FMul(x, x)]), FInt(Len(fr))))
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
ColumnSet(fr, d) == {fr[i][d] : i \in 1 .. Len(fr)}
StatsOf(fr, dim) ==
  [mean |-> [d \in 1 .. dim |-> MeanOf(fr, d)], std |-> [d \in 1 .. dim |-> StdOf(fr, d)],
   min |-> IF fr = <<>> THEN <<>> ELSE [d \in 1 .. dim |-> SetMin(ColumnSet(fr, d))],
   max |-> IF fr = <<>> THEN <<>> ELSE [d \in 1 .. dim |-> SetMax(ColumnSet(fr, d))]]

\* every complete frame is transformed once: (x - offset) * gain
ScaleF(fr, k, off, gain) == [i \in 1 .. Len(fr) |-> IF i > k THEN fr[i]
                               ELSE [d \in 1 .. Len(fr[i]) |-> (fr[i][d] - off[d]) * gain[d]]]
Rescale(st, p, off, gain) ==
  LET ph == st.ph[p] IN
  Ret(st, p, [ph EXCEPT
        !.fin = ScaleF(@, Size(ph), off, gain),
        !.fout = ScaleF(@, Size(ph), SubSeq(off, ph.din + 1, ph.dim), SubSeq(gain, ph.din + 1, ph.dim))])

\* a phrase read back from the JSON document written by ph: it owns its frames,
\* of which only the complete ones are in the document
Loaded(st, ph) ==
  [ph EXCEPT !.own = TRUE, !.cols = Names(ph), !.bin = "", !.lin = 0, !.bout = "", !.lout = 0,
             !.fin = Take(InF(st, ph), Size(ph)), !.fout = Take(OutF(st, ph), Size(ph))]

Apply(st, op) ==
  CASE op.o = "new" -> Ret(st, op.p, Fresh(op.own, op.bi))
    [] op.o = "copy" -> Ret(st, op.p, st.ph[op.q])
    [] op.o = "assign" -> Ret(st, op.p, st.ph[op.q])
    [] op.o = "del" -> Ret(st, op.p, Dead)
    [] op.o = "rec" -> Record(st, op.p, op.v)
    [] op.o = "recin" -> RecordIn(st, op.p, op.v)
    [] op.o = "recout" -> RecordOut(st, op.p, op.v)
    [] op.o = "fill" -> Fill(st, op.p, op.n, op.base)
    [] op.o = "fillin" -> FillOne(st, op.p, op.n, op.base, FALSE)
    [] op.o = "fillout" -> FillOne(st, op.p, op.n, op.base, TRUE)
    [] op.o = "clear" -> Clear(st, op.p, "all")
    [] op.o = "clearin" -> Clear(st, op.p, "in")
    [] op.o = "clearout" -> Clear(st, op.p, "out")
    [] op.o = "setdim" -> SetDim(st, op.p, op.d)
    [] op.o = "setdin" -> SetDin(st, op.p, op.d)
    [] op.o = "label" -> Ret(st, op.p, [st.ph[op.p] EXCEPT !.label = op.l])
    [] op.o = "cols" -> Ret(st, op.p, [st.ph[op.p] EXCEPT !.cols = [d \in 1 .. st.ph[op.p].dim |-> op.l]])
    [] op.o = "get" -> GetValue(st, op.p, op.i, op.d)
    [] op.o = "ptr" -> Pointer(st, op.p, op.i, op.w)
    [] op.o = "con" -> Connect(st, op.p, op.b, op.n)
    [] op.o = "con2" -> Connect2(st, op.p, op.b, op.c, op.n)
    [] op.o = "conin" -> ConnectIn(st, op.p, op.b, op.n)
    [] op.o = "conout" -> ConnectOut(st, op.p, op.b, op.n)
    [] op.o = "discon" -> Disconnect(st, op.p)
    [] op.o = "poke" -> [st |-> [st EXCEPT !.buf[op.b][op.i] = op.x], r |-> Void]
    [] op.o = "stats" -> Give(st, StatsOf(Joint(st, st.ph[op.p]), st.ph[op.p].dim))
    [] op.o = "rescale" -> Rescale(st, op.p, op.off, op.gain)
    [] op.o = "json" -> Ret(st, op.p, Loaded(st, st.ph[op.q]))
    [] op.o = "jsonnew" -> Ret(st, op.p, Loaded(st, st.ph[op.q]))

\* ------------------------------------------------------------- invariants
TypeOK(st) == \A p \in Slots : LET ph == st.ph[p] IN ph.alive =>
  /\ ph.dim >= (IF ph.bi THEN 2 ELSE 1)
  /\ IF ph.bi THEN ph.din \in 1 .. ph.dim - 1 ELSE ph.din = 0
  /\ \A i \in 1 .. LIn(ph) : Len(InF(st, ph)[i]) = WIn(ph)
  /\ \A i \in 1 .. LOut(ph) : Len(OutF(st, ph)[i]) = WOut(ph)
  /\ ~ph.bi => LOut(ph) = 0
Consistent(st) == \A p \in Slots : LET ph == st.ph[p] IN ph.alive =>
  /\ Size(ph) <= LIn(ph) /\ (Empty(ph) => Size(ph) = 0)
  /\ \A i \in 0 .. Size(ph) : \A d \in 0 .. ph.dim :
       (GetValue(st, p, i, d).r = Exc) = ((d >= ph.dim) \/ i >= (IF ph.bi /\ d >= ph.din THEN LOut(ph) ELSE LIn(ph)))
============================================================================
