----------------------------- MODULE PhraseMC -----------------------------
(* Behaviours of the phrase: exhaustive checking of small instances, and    *)
(* (KeepHist) generation of operation sequences for the real library.       *)
EXTENDS Phrase, TLC, Json
CONSTANTS Vals, MaxDim, MaxLen, KeepHist, Depth, Families, Labels, Pokes
VARIABLES st, h, lastop
vars == <<st, h, lastop>>

Init == st = InitSt /\ h = <<>> /\ lastop = [o |-> "none", p |-> 0]
Do(op) == LET x == Apply(st, op) IN
  /\ (KeepHist => Len(h) < Depth)
  /\ st' = x.st /\ h' = (IF KeepHist THEN Append(h, op) ELSE h)
  /\ lastop' = IF KeepHist THEN lastop ELSE [o |-> op.o, p |-> IF "p" \in DOMAIN op THEN op.p ELSE 0]

Alive == {p \in Slots : st.ph[p].alive}
F(f) == f \in Families
Bool == {TRUE, FALSE}
Frames(w) == IF w <= 0 THEN {<<>>} ELSE IF w = 1 THEN {<<v>> : v \in Vals}
             ELSE {[d \in 1 .. w |-> v + d] : v \in Vals}
Room(p) == st.ph[p].own => Len(st.ph[p].fin) < MaxLen /\ Len(st.ph[p].fout) < MaxLen

New == \E p \in Slots, own \in Bool, bi \in Bool :
         (~st.ph[p].alive) /\ (own \/ F("shared")) /\ Do([o |-> "new", p |-> p, own |-> own, bi |-> bi])
Del == F("multi") /\ \E p \in Alive : Do([o |-> "del", p |-> p])
Copy == F("multi") /\ \E p \in Slots \ Alive, q \in Alive : Do([o |-> "copy", p |-> p, q |-> q])
Assign == F("multi") /\ \E p \in Alive, q \in Alive : Do([o |-> "assign", p |-> p, q |-> q])
Rec == \E p \in Alive : Room(p) /\ \E v \in Frames(st.ph[p].dim) : Do([o |-> "rec", p |-> p, v |-> v])
RecBad == \E p \in Alive, w \in {-1, 1} : Room(p) /\ \E v \in Frames(st.ph[p].dim + w) : Do([o |-> "rec", p |-> p, v |-> v])
RecIn == \E p \in Alive, w \in {0, 0, 1} : Room(p) /\ \E v \in Frames(st.ph[p].din + w) : Do([o |-> "recin", p |-> p, v |-> v])
RecOut == \E p \in Alive, w \in {0, 1} : Room(p) /\ \E v \in Frames(st.ph[p].dim - st.ph[p].din + w) : Do([o |-> "recout", p |-> p, v |-> v])
FillA == F("fill") /\ \E p \in Alive, n \in {3, 255, 256, 257, 300} : Room(p) /\ Do([o |-> "fill", p |-> p, n |-> n, base |-> 1000])
FillI == F("fill") /\ \E p \in Alive, n \in {4, 256, 260}, o \in {"fillin", "fillout"} : Room(p) /\ Do([o |-> o, p |-> p, n |-> n, base |-> 5000])
Clr == \E p \in Alive, o \in {"clear", "clearin", "clearout"} : Do([o |-> o, p |-> p])
Dim == \E p \in Alive, d \in 0 .. MaxDim : Do([o |-> "setdim", p |-> p, d |-> d])
Din == \E p \in Alive, d \in 0 .. MaxDim : Do([o |-> "setdin", p |-> p, d |-> d])
Label == \E p \in Alive, l \in Labels : Do([o |-> "label", p |-> p, l |-> l])
Cols == F("cols") /\ \E p \in Alive, l \in {"u", "v"} : Do([o |-> "cols", p |-> p, l |-> l])
Get == F("read") /\ \E p \in Alive : \E i \in 0 .. Max(LIn(st.ph[p]), LOut(st.ph[p])), d \in 0 .. st.ph[p].dim :
         i < 14 /\ Do([o |-> "get", p |-> p, i |-> i, d |-> d])
Ptr == F("read") /\ \E p \in Alive, w \in {"all", "in", "out"} : \E i \in 0 .. Size(st.ph[p]) :
         i < 14 /\ Do([o |-> "ptr", p |-> p, i |-> i, w |-> w])
\* the caller's buffer must hold what the caller announces
Fits(w, n) == w * n <= BufLen
Con == F("shared") /\ \E p \in Alive, b \in Buffers, n \in {0, 1, 2} :
         Fits(st.ph[p].dim, n) /\ Do([o |-> "con", p |-> p, b |-> b, n |-> n])
Con2 == F("shared") /\ \E p \in Alive, b \in Buffers, c \in Buffers, n \in {0, 1, 2} :
         Fits(st.ph[p].dim, n) /\ Do([o |-> "con2", p |-> p, b |-> b, c |-> c, n |-> n])
Con1 == F("shared") /\ \E p \in Alive, b \in Buffers, n \in {0, 1, 2}, o \in {"conin", "conout"} :
         Fits(st.ph[p].dim, n) /\ Do([o |-> o, p |-> p, b |-> b, n |-> n])
Discon == F("shared") /\ \E p \in Alive : Do([o |-> "discon", p |-> p])
Poke == F("shared") /\ \E b \in Buffers, i \in Pokes, x \in Vals : Do([o |-> "poke", b |-> b, i |-> i, x |-> x])
Stats == F("stats") /\ \E p \in Alive : Do([o |-> "stats", p |-> p])
Scale == F("stats") /\ \E p \in {q \in Alive : st.ph[q].own}, k \in {1, 2, 3} :
  Do([o |-> "rescale", p |-> p,
      off |-> [d \in 1 .. st.ph[p].dim |-> IF k = 1 THEN 0 ELSE k * d],
      gain |-> [d \in 1 .. st.ph[p].dim |-> IF k = 3 THEN -1 ELSE IF d = 2 THEN 2 ELSE 1]])
JsonAll == F("json") /\ \E p \in Alive, q \in Alive : Do([o |-> "json", p |-> p, q |-> q])
JsonNew == F("json") /\ \E p \in Slots \ Alive, q \in Alive : Do([o |-> "jsonnew", p |-> p, q |-> q])

\* the end of a generated behaviour: one successor, so that it is printed once
Finish == KeepHist /\ Len(h) = Depth /\ lastop.o # "end" /\ lastop' = [o |-> "end", p |-> 0] /\ UNCHANGED <<st, h>>
Next == \/ Finish \/ New \/ Del \/ Copy \/ Assign \/ Rec \/ Rec \/ RecBad \/ RecIn \/ RecOut \/ FillA \/ FillI \/ Clr \/ Dim \/ Din
        \/ Label \/ Cols \/ Get \/ Ptr \/ Con \/ Con2 \/ Con1 \/ Discon \/ Poke \/ Stats \/ Scale \/ JsonAll \/ JsonNew
VarsView == <<st, h, IF KeepHist THEN lastop ELSE 0>>
Spec == Init /\ [][Next]_vars

Emit == (lastop.o = "end") => PrintT("@S" \o ToJson(h))
Inv == TypeOK(st) /\ Consistent(st)
\* an operation on one phrase is never visible in another
Independent == [][\A p \in Slots : (st.ph[p].alive /\ lastop'.p # p) => st'.ph[p] = st.ph[p]]_vars
\* a bound phrase sees the caller's buffer, and no call ever writes to it
BufferSafe == [][lastop'.o # "poke" => st'.buf = st.buf]_vars
Bound == \A p \in Slots : Len(st.ph[p].fin) <= MaxLen /\ Len(st.ph[p].fout) <= MaxLen
============================================================================
