--------------------------- MODULE TrainingSetMC ---------------------------
EXTENDS TrainingSet, TLC, Json
CONSTANTS Vals, MaxDim, MaxLen, KeepHist, Depth, Families
CONSTANT SmallIdx
IdxO == IF SmallIdx THEN <<1, 2>> ELSE <<-1, 2, 5>>
LabO == IF SmallIdx THEN <<"a", "b">> ELSE <<"", "a", "b">>
VARIABLES st, h, last
vars == <<st, h, last>>
Init == st = TInit /\ h = <<>> /\ last = "none"
Do(op) == LET x == TApply(st, op) IN
  /\ (KeepHist => Len(h) < Depth)
  /\ st' = x.st /\ h' = (IF KeepHist THEN Append(h, op) ELSE h) /\ last' = op.o
Finish == KeepHist /\ Len(h) = Depth /\ last # "end" /\ last' = "end" /\ UNCHANGED <<st, h>>
F(f) == f \in Families
Bool == {TRUE, FALSE}
Idx == {IdxOrder[k] : k \in 1 .. Len(IdxOrder)}
Lab == {LabelOrder[k] : k \in 1 .. Len(LabelOrder)}
T == {t \in TSlots : st.ts[t].alive}
H == {k \in HSlots : st.h[k] # 0}
In(t) == DOMAIN st.ts[t].m
Shape(s, ph) == s.bi = ph.bi /\ s.dim = ph.dim /\ s.din = ph.din
SameShape(a, b) == a.bi = b.bi /\ a.dim = b.dim /\ a.din = b.din
Elsewhere(t, p) == \E u \in TSlots \ {t} : \E i \in DOMAIN st.ts[u].m : st.ts[u].m[i] = p
Frames(w) == IF w <= 0 THEN {} ELSE IF w = 1 THEN {<<v>> : v \in Vals} ELSE {[d \in 1 .. w |-> v * d] : v \in Vals}

New == \E t \in TSlots, bi \in Bool : ~st.ts[t].alive /\ (bi => F("bi")) /\ Do([o |-> "new", t |-> t, bi |-> bi])
Copy == F("multi") /\ \E t \in TSlots, u \in T : ~st.ts[t].alive /\ Do([o |-> "copy", t |-> t, u |-> u])
Assign == F("multi") /\ \E t \in T, u \in T : Do([o |-> "assign", t |-> t, u |-> u])
Del == F("multi") /\ \E t \in T : Do([o |-> "del", t |-> t])
ClearAll == \E t \in T : In(t) # {} /\ Do([o |-> "clear", t |-> t])
Add == \E t \in T, i \in Idx, l \in Lab : Do([o |-> "add", t |-> t, i |-> i, l |-> l])
AddCopy == F("handles") /\ \E t \in T, i \in Idx, k \in H : Shape(st.ts[t], st.ph[st.h[k]]) /\ Do([o |-> "addcopy", t |-> t, i |-> i, k |-> k])
AddPtr == F("handles") /\ ~F("stats") /\ \E t \in T, i \in Idx, k \in H :
            Shape(st.ts[t], st.ph[st.h[k]]) /\ ~Elsewhere(t, st.h[k]) /\ Do([o |-> "addptr", t |-> t, i |-> i, k |-> k])
Rm == \E t \in T, i \in Idx : Do([o |-> "rm", t |-> t, i |-> i])
RmClass == \E t \in T, l \in Lab : Do([o |-> "rmclass", t |-> t, l |-> l])
RmFirst == \E t \in T : Do([o |-> "rmfirst", t |-> t])
HGet == F("handles") /\ \E k \in HSlots, t \in T, i \in Idx : Do([o |-> "hget", k |-> k, t |-> t, i |-> i])
HNew == F("handles") /\ \E k \in HSlots, t \in T, l \in Lab : Do([o |-> "hnew", k |-> k, t |-> t, l |-> l])
HDrop == F("handles") /\ \E k \in H : Do([o |-> "hdrop", k |-> k])
HLabel == F("handles") /\ \E k \in H, l \in Lab : Do([o |-> "hlabel", k |-> k, l |-> l])
HAssign == F("handles") /\ \E k \in H, j \in H : SameShape(st.ph[st.h[k]], st.ph[st.h[j]]) /\ st.h[k] # st.h[j]
             /\ \E o \in {"hassign", "hjson"} : Do([o |-> o, k |-> k, j |-> j])
PLabel == \E t \in T, l \in Lab : \E i \in In(t) : Do([o |-> "plabel", t |-> t, i |-> i, l |-> l])
Rec == F("rec") /\ \E t \in T : \E i \in In(t), v \in Frames(st.ts[t].dim) :
         Len(st.ph[st.ts[t].m[i]].fin) < MaxLen /\ Do([o |-> "rec", t |-> t, i |-> i, v |-> v])
Rec1 == F("rec") /\ \E t \in T : \E i \in In(t) : Len(st.ph[st.ts[t].m[i]].fin) < MaxLen /\ Len(st.ph[st.ts[t].m[i]].fout) < MaxLen /\
         ((\E v \in Frames(st.ts[t].din) : Do([o |-> "recin", t |-> t, i |-> i, v |-> v]))
          \/ (\E v \in Frames(st.ts[t].dim - st.ts[t].din) : Do([o |-> "recout", t |-> t, i |-> i, v |-> v])))
TDim == F("shape") /\ \E t \in T, d \in 0 .. MaxDim : Do([o |-> "tdim", t |-> t, d |-> d])
TDin == F("shape") /\ \E t \in T, d \in 0 .. MaxDim : Do([o |-> "tdin", t |-> t, d |-> d])
TCols == F("shape") /\ \E t \in T, n \in {"u", "v"}, w \in {0, 1} :
           Do([o |-> "tcols", t |-> t, c |-> [d \in 1 .. st.ts[t].dim + w |-> IF d = 1 THEN n ELSE "w"]])
GetP == \E t \in T, i \in Idx : Do([o |-> "getp", t |-> t, i |-> i])
GetC == \E t \in T, l \in Lab : Do([o |-> "getc", t |-> t, l |-> l])
Json_ == F("json") /\ \E t \in T, u \in T : Do([o |-> "json", t |-> t, u |-> u])
JsonNew == F("json") /\ \E t \in TSlots, u \in T : ~st.ts[t].alive /\ Do([o |-> "jsonnew", t |-> t, u |-> u])
Stats == F("stats") /\ \E t \in T : Do([o |-> "stats", t |-> t])
Norm == F("stats") /\ \E t \in T : Do([o |-> "norm", t |-> t])
Small == \A p \in Slots : \A i \in 1 .. Len(st.ph[p].fin) : \A d \in 1 .. Len(st.ph[p].fin[i]) : st.ph[p].fin[i][d] \in -100000 .. 100000
Scale == F("stats") /\ Small /\ \E t \in T, k \in {1, 2, 3} :
  Do([o |-> "rescale", t |-> t,
      off |-> [d \in 1 .. st.ts[t].dim |-> IF k = 1 THEN 0 ELSE k * d],
      gain |-> [d \in 1 .. st.ts[t].dim |-> IF k = 3 THEN -1 ELSE IF d = 2 THEN 2 ELSE 1]])
Next == \/ Finish \/ New \/ Copy \/ Assign \/ Del \/ ClearAll \/ Add \/ Add \/ AddCopy \/ AddPtr \/ Rm \/ RmClass \/ RmFirst
        \/ HGet \/ HNew \/ HDrop \/ HLabel \/ HAssign \/ PLabel \/ PLabel \/ Rec \/ Rec \/ Rec1 \/ TDim \/ TDin \/ TCols
        \/ GetP \/ GetC \/ Json_ \/ JsonNew \/ Stats \/ Norm \/ Scale
Spec == Init /\ [][Next]_vars
VarsView == <<st, h, IF KeepHist THEN last ELSE "">>
Emit == (last = "end") => PrintT("@S" \o ToJson(h))
Inv == ViewsOK(st) /\ ShapeOK(st)
Bound == \A p \in Slots : Len(st.ph[p].fin) <= MaxLen /\ Len(st.ph[p].fout) <= MaxLen
=============================================================================
