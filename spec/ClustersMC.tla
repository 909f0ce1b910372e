----------------------------- MODULE ClustersMC -----------------------------
EXTENDS Clusters, TLC
CONSTANTS KeepHist, Depth
VARIABLES st, h, last
vars == <<st, h, last>>
\* centres by name
Learn0(k, d, mode) == <<"centres", k, d, mode>>
Init == st = InitSt /\ h = <<>> /\ last = "none"
Do(op) == LET x == Apply(st, op) IN
  /\ (KeepHist => Len(h) < Depth)
  /\ st' = x.st /\ h' = (IF KeepHist THEN Append(h, op) ELSE h) /\ last' = op.o
Finish == KeepHist /\ Len(h) = Depth /\ last # "end" /\ last' = "end" /\ UNCHANGED <<st, h>>
Live == {k \in Slots : st[k].alive}
Free == {k \in Slots : ~st[k].alive}
Small == IF KeepHist THEN {"1", "2", "3", "4", "7"} ELSE {"1", "3"}
New == \E k \in Free, n \in Small \cup {"0"} : Do([o |-> "new", s |-> k, k |-> n])
Del == \E k \in Live : Do([o |-> "del", s |-> k])
Copy == \E k \in Free, u \in Live : Do([o |-> "copy", s |-> k, u |-> u])
Assign == \E k \in Live, u \in Live : Do([o |-> "assign", s |-> k, u |-> u])
Clusters1 == \E k \in Live, v \in Small \cup {"0"} : Do([o |-> "dset", s |-> k, f |-> 1, v |-> v])
Iterations == \E k \in Live, v \in (IF KeepHist THEN {"0", "1", "2", "3", "50"} ELSE {"1", "0"}) : Do([o |-> "dset", s |-> k, f |-> 2, v |-> v])
Threshold == \E k \in Live, v \in (IF KeepHist THEN {"0", "0.3", "0.05", "1e-20", "-1"} ELSE {"-1"}) : Do([o |-> "dset", s |-> k, f |-> 3, v |-> v])
Mode == \E k \in Live, m \in {"biased", "random"} : st[k].mode # m /\ Do([o |-> "mode", s |-> k, m |-> m])
Train == \E k \in Live, i \in 1 .. Len(Lib) : Do([o |-> "train", s |-> k, k |-> i])
TrainNull == \E k \in Live : Do([o |-> "train", s |-> k, k |-> 0])
Reset == \E k \in Live : Do([o |-> "reset", s |-> k])
Pick(s) == CHOOSE x \in {RandomElement(s)} : TRUE
\* a frame of a set of the right size, sometimes of a wrong one
Obs(m) == LET is == {i \in 1 .. Len(Lib) : Lib[i].dim >= m.dim /\ \E p \in 1 .. Len(Lib[i].phr) : Lib[i].phr[p].f # <<>>} IN
  IF ~KeepHist \/ is = {} THEN {[i \in 1 .. m.dim |-> "0.5"]}
  ELSE LET i == Pick(is) ps == {p \in 1 .. Len(Lib[i].phr) : Lib[i].phr[p].f # <<>>}
           f == Lib[i].phr[Pick(ps)].f
       IN {SubSeq(f[Pick(1 .. Len(f))], 1, m.dim)}
Filter == \E k \in Live : \E x \in Obs(st[k]) : Do([o |-> "filter", s |-> k, x |-> x])
FilterBad == \E k \in Live, e \in {-1, 1} : st[k].dim + e >= 0 /\ Do([o |-> "filter", s |-> k, x |-> [i \in 1 .. st[k].dim + e |-> "1"]])
Next == Finish \/ New \/ New \/ Del \/ Copy \/ Copy \/ Assign \/ Clusters1 \/ Iterations \/ Threshold \/ Mode \/ Train \/ Train \/ TrainNull \/ Reset \/ Filter \/ Filter \/ Filter \/ FilterBad
Spec == Init /\ [][Next]_vars
VarsView == <<st, h, IF KeepHist THEN last ELSE "">>
Emit == (last = "end") => PrintT("@S" \o ToJson(h))
Inv == \A k \in Slots : KOK(st[k])
\* only training and copying change centres; an operation changes at most one model
Steady == [][/\ last' \in {"dset", "mode", "reset", "filter"} => \A k \in Slots : st[k].cs = st'[k].cs
             /\ Cardinality({k \in Slots : st[k] # st'[k]}) <= 1]_vars
=============================================================================
