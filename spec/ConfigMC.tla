------------------------------ MODULE ConfigMC ------------------------------
EXTENDS Config, TLC, Json
CONSTANTS KindsUsed, MaxF, Families, MaxDim, KeepHist, Depth
LabO == IF MaxF = 1 THEN <<"", "a">> ELSE <<"", "a", "b c">>
VARIABLES st, h, last
vars == <<st, h, last>>
Init == st = InitSt /\ h = <<>> /\ last = "none"
Do(op) == LET x == Apply(st, op) IN
  /\ (KeepHist => Len(h) < Depth)
  /\ st' = x.st /\ h' = (IF KeepHist THEN Append(h, op) ELSE h) /\ last' = op.o
Finish == KeepHist /\ Len(h) = Depth /\ last # "end" /\ last' = "end" /\ UNCHANGED <<st, h>>
F(f) == f \in Families
Sh == {k \in SSlots : st.s[k].alive}
Cf == {k \in CSlots : st.c[k].alive}
Lab == {LabelOrder[i] : i \in 1 .. Len(LabelOrder)}
SNew == F("shared") /\ \E k \in SSlots : ~st.s[k].alive /\ Do([o |-> "snew", s |-> k])
SDel == F("shared") /\ \E k \in Sh : Do([o |-> "sdel", s |-> k])
SCopy == \E k \in SSlots, u \in Sh, o \in {"scopy", "sjsonnew"} : ~st.s[k].alive /\ (o = "sjsonnew" => F("json")) /\ Do([o |-> o, s |-> k, u |-> u])
SAssign == \E k \in Sh, u \in Sh, o \in {"sassign", "sjson"} : (o = "sjson" => F("json")) /\ Do([o |-> o, s |-> k, u |-> u])
SBi == \E k \in Sh, v \in {TRUE, FALSE} : Do([o |-> "sset", s |-> k, f |-> "bi", v |-> v])
SDim == \E k \in Sh, v \in 0 .. MaxDim, f \in {"dim", "din"} : Do([o |-> "sset", s |-> k, f |-> f, v |-> v])
SCols == F("cols") /\ \E k \in Sh, n \in {"u", "\"v"} : \E w \in {-1, 0, 0, 1} : Do([o |-> "sset", s |-> k, f |-> "cols", v |-> [i \in 1 .. (st.s[k].dim + w) |-> n]])
UPool == {"0", "1", "2", "30", "4294967295"}
DPool == {"0", "1e-20", "1e-21", "0.5", "0.1", "-1", "-1e-30", "NaN", "Infinity", "1e-25", "3"}
SNum == F("num") /\ \E k \in Sh : (\E f \in {"emin", "emax", "win"}, v \in UPool : Do([o |-> "sset", s |-> k, f |-> f, v |-> v]))
             \/ (\E v \in DPool : Do([o |-> "sset", s |-> k, f |-> "pct", v |-> v]))
CNew == F("config") /\ \E k \in CSlots, t \in KindsUsed : ~st.c[k].alive /\ Do([o |-> "cnew", c |-> k, k |-> t])
CDel == \E k \in Cf : Do([o |-> "cdel", c |-> k])
CCopy == \E k \in CSlots, u \in Cf, o \in {"ccopy", "cjsonnew"} : ~st.c[k].alive /\ (o = "cjsonnew" => F("json")) /\ Do([o |-> o, c |-> k, u |-> u])
CAssign == \E k \in Cf, u \in Cf, o \in {"cassign", "cjson"} : st.c[k].k = st.c[u].k /\ (o = "cjson" => F("json")) /\ Do([o |-> o, c |-> k, u |-> u])
Pool(f) == IF ~F("num") THEN {Lo(f), "1"}
  ELSE CASE f \in {"gaussians", "states", "clusters", "iters"} -> UPool [] f \in {"rel", "abs", "thr"} -> DPool
       [] f \in {"cov", "trans"} -> {"0", "1", "2", "-1"} [] f = "reg" -> {"0", "1", "2", "3", "-1"} [] f = "hier" -> {"0", "1"}
DSet == \E k \in Cf : \E i \in {j \in 1 .. Len(Fields(st.c[k].k)) : j <= MaxF} : \E v \in Pool(Fields(st.c[k].k)[i]) : Do([o |-> "dset", c |-> k, f |-> i, v |-> v])
CSet == \E k \in Cf, l \in Lab : \E i \in {j \in 1 .. Len(Fields(st.c[k].k)) : j <= MaxF} : \E v \in Pool(Fields(st.c[k].k)[i]) : Do([o |-> "cset", c |-> k, l |-> l, f |-> i, v |-> v])
CGet == \E k \in Cf, l \in Lab : Do([o |-> "cget", c |-> k, l |-> l])
CPut == \E k \in Cf, u \in Cf, l \in Lab, m \in Lab : st.c[k].k = st.c[u].k /\ Do([o |-> "cput", c |-> k, u |-> u, l |-> l, m |-> m])
Mode == MaxF > 1 /\ \E k \in Cf, v \in 0 .. 2 : Do([o |-> "mode", c |-> k, v |-> v])
Est == MaxF > 1 /\ \E k \in Cf, v \in 0 .. 1 : Do([o |-> "est", c |-> k, v |-> v])
Reset == \E k \in Cf : Do([o |-> "reset", c |-> k])
Reset1 == \E k \in Cf, l \in Lab : Do([o |-> "reset1", c |-> k, l |-> l])
Next == Finish \/ SNew \/ SDel \/ SCopy \/ SAssign \/ SBi \/ SDim \/ SDim \/ SCols \/ SNum \/ SNum
        \/ CNew \/ CDel \/ CCopy \/ CAssign \/ DSet \/ DSet \/ CSet \/ CSet \/ CGet \/ CPut \/ Mode \/ Est \/ Reset \/ Reset1
Spec == Init /\ [][Next]_vars
VarsView == <<st, h, IF KeepHist THEN last ELSE "">>
Emit == (last = "end") => PrintT("@S" \o ToJson(h))
Inv == SharedOK(st) /\ ConfigOK(st)
\* defaults and class-specific parameters do not influence each other
Isolated == [][\A k \in CSlots : st.c[k].alive /\ st'.c[k].alive /\ last' \in {"dset", "cset", "cput", "reset1", "cget"} =>
                /\ (last' # "dset" => st'.c[k].d = st.c[k].d)
                /\ (last' = "dset" => st'.c[k].cls = st.c[k].cls)
                /\ Cardinality({l \in DOMAIN st.c[k].cls : l \notin DOMAIN st'.c[k].cls \/ st.c[k].cls[l] # st'.c[k].cls[l]}) <= 1]_vars
=============================================================================
