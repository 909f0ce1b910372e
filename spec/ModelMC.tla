------------------------------ MODULE ModelMC ------------------------------
EXTENDS Model, TLC, Json, IOUtils
CONSTANTS Families, KindsUsed, KeepHist, Depth
LabO == <<"", "a", "b", "c d">>
\* frames of a class, named by the first place where they are found
Frames(k, l) == [i \in 1 .. Len(PhrasesOf(k, l)) |-> PhrasesOf(k, l)[i].f]
Key0(k, l) == Frames(k, l)
VARIABLES st, h, last
vars == <<st, h, last>>
Init == st = InitSt /\ h = <<>> /\ last = "none"
Do(op) == LET x == Apply(st, op, IF op.o \in {"train", "train1"} THEN Untrainable(st[op.s], op) ELSE {}) IN
  /\ (KeepHist => Len(h) < Depth)
  /\ st' = x.st /\ h' = (IF KeepHist THEN Append(h, op) ELSE h) /\ last' = op.o
Finish == KeepHist /\ Len(h) = Depth /\ last # "end" /\ last' = "end" /\ UNCHANGED <<st, h>>
F(f) == f \in Families
Live == {k \in MSlots : st[k].alive}
Free == {k \in MSlots : ~st[k].alive}
Lab == {LabelOrder[i] : i \in 1 .. Len(LabelOrder)}
Labs == {l \in Lab : \E k \in 1 .. Len(Lib) : l \in LabelsOf(k)}
\* one at random in simulation, all when exploring
Some(S) == IF KeepHist THEN {RandomElement(S)} ELSE S
New == \E k \in Free, t \in KindsUsed, b \in {Lib[i].bi : i \in 1 .. Len(Lib)} : Do([o |-> "mnew", s |-> k, k |-> t, bi |-> b])
Del == F("copy") /\ \E k \in Live : Do([o |-> "mdel", s |-> k])
Copy == F("copy") /\ \E k \in Free, u \in Live : Do([o |-> "mcopy", s |-> k, u |-> u])
Assign == F("copy") /\ \E k \in Live, u \in Live : st[k].kind = st[u].kind /\ Do([o |-> "massign", s |-> k, u |-> u])
Through == F("copy") /\ \E k \in Live, l \in Labs : Has(st[k], l) /\ Do([o |-> "through", s |-> k, l |-> l])
Load == F("json") /\ \E k \in Live, u \in Live : st[k].kind = st[u].kind /\ Do([o |-> "mjson", s |-> k, u |-> u])
LoadNew == F("json") /\ \E k \in Free, u \in Live : Do([o |-> "mjsonnew", s |-> k, u |-> u])
\* stopping criteria: fixed numbers of steps, and steps until little changes
Stops == {<<"emin", "1">>, <<"emin", "3">>, <<"emax", "0">>, <<"emax", "0">>, <<"emax", "4">>, <<"emax", "2">>, <<"pct", "0.5">>, <<"pct", "20">>, <<"pct", "0">>}
Stop == F("stop") /\ \E k \in Live, p \in Stops : Do([o |-> "sset", s |-> k, f |-> p[1], v |-> p[2]])
\* no training takes more than 1000 steps
Cap == F("cap") /\ \E k \in Live, p \in {<<"emax", "1500">>, <<"emax", "1001">>, <<"emax", "999">>, <<"emin", "1200">>, <<"pct", "0">>} : Do([o |-> "sset", s |-> k, f |-> p[1], v |-> p[2]])
Win == F("win") /\ \E k \in Live, v \in {"1", "2", "3", "6", "0"} : Do([o |-> "sset", s |-> k, f |-> "win", v |-> v])
SetMul == ~KeepHist /\ F("dim") /\ \E k \in Live, v \in 1 .. 3 : st[k].cls = <<>> /\ Do([o |-> "sset", s |-> k, f |-> "dim", v |-> v])
Pool(f) == CASE f = "gaussians" -> {"1", "2", "3"} [] f = "states" -> {"1", "2", "3", "5"} [] f = "rel" -> {"0.01", "0.1", "0.5"} [] f = "abs" -> {"0.001", "0.05"}
             [] f \in {"cov", "trans", "hier"} -> {"0", "1"} [] f = "reg" -> {"0", "1", "2"} [] OTHER -> {"1"}
Used(k) == {i \in 1 .. Len(Fields(k)) : (~KeepHist => F(Fields(k)[i])) /\ (F("nohier") => Fields(k)[i] # "hier")}
DSet == F("config") /\ \E k \in Live : \E i \in Used(st[k].kind) : \E v \in Pool(Fields(st[k].kind)[i]) : Do([o |-> "dset", s |-> k, f |-> i, v |-> v])
CSet == F("class") /\ \E k \in Live, l \in Labs : \E i \in Used(st[k].kind) : \E v \in Some(Pool(Fields(st[k].kind)[i])) : Do([o |-> "cset", s |-> k, l |-> l, f |-> i, v |-> v])
CReset == F("class") /\ \E k \in Live, l \in Labs : \/ Do([o |-> "creset", s |-> k]) \/ Do([o |-> "creset1", s |-> k, l |-> l])
Hier1 == F("hier") /\ \E k \in Live, v \in {"0", "1"} : st[k].kind = "hmm" /\ Do([o |-> "dset", s |-> k, f |-> 8, v |-> v])
Thread == F("thread") /\ \E k \in Live, v \in 0 .. 2 : Do([o |-> "mt", s |-> k, v |-> v])
Est == F("est") /\ \E k \in Live, v \in 0 .. 1 : Do([o |-> "est", s |-> k, v |-> v])
Sets == 1 .. Len(Lib)
Fits(m, k) == Lib[k].bi = m.sh.bi
Likely(m) == LET S == {k \in Sets : Fits(m, k)} IN IF F("misfit") \/ S = {} THEN Sets \cup {0} ELSE S
Quick(m) == FLe(m.sh.emin, m.sh.emax) /\ FLe(m.sh.emax, "6")
Train == \E k \in Live : \E i \in Some(Likely(st[k])) : Do([o |-> "train", s |-> k, set |-> i, snap |-> F("snap")])
Train1 == F("train1") /\ \E k \in Live : \E i \in Some(Likely(st[k]) \ {0}) : \E l \in (IF F("misfit") THEN Labs ELSE LabelsOf(i)) :
            Do([o |-> "train1", s |-> k, set |-> i, l |-> l, snap |-> F("snap")])
TrainNull == F("misfit") /\ \E k \in Live : Do([o |-> "train1", s |-> k, set |-> 0, l |-> "a", snap |-> FALSE])
Rm == F("rm") /\ \E k \in Live, l \in Labs : (F("misfit") \/ Has(st[k], l)) /\ Do([o |-> "rm", s |-> k, l |-> l])
Clear == F("rm") /\ \E k \in Live : Do([o |-> "clear", s |-> k])
Reset == F("filter") /\ \E k \in Live : Do([o |-> "reset", s |-> k])
\* observations: frames of the library of the right size; a longer or a shorter one
Pick(S) == RandomElement(S)
Obs(m) == LET ks == {k \in Sets : Lib[k].dim >= m.sh.dim /\ Len(Lib[k].phr) > 0} IN
  IF ks = {} THEN {<<"1">>}
  ELSE LET k == Pick(ks)
           p == Lib[k].phr[Pick(1 .. Len(Lib[k].phr))].f
       IN IF p = <<>> THEN {[i \in 1 .. Need(m) |-> "0.5"]} ELSE {SubSeq(p[Pick(1 .. Len(p))], 1, Need(m))}
Filter == F("filter") /\ KeepHist /\ \E k \in Live : (F("misfit") \/ Len(st[k].cls) > 0) /\ \E x \in Obs(st[k]) : Do([o |-> "filter", s |-> k, x |-> x])
\* the frames of a phrase one after the other
Along(k) == LET m == st[k]
                fs == SelectSeq(h, LAMBDA o : o.o = "filter")
                want == IF fs = <<>> THEN <<"">> ELSE fs[Len(fs)].x
                phs == UNION {{<<i, j>> : j \in 1 .. Len(Lib[i].phr)} : i \in {i \in Sets : Lib[i].dim >= m.sh.dim}}
                nxt == {p \in phs : \E t \in 1 .. Len(Lib[p[1]].phr[p[2]].f) - 1 : SubSeq(Lib[p[1]].phr[p[2]].f[t], 1, Need(m)) = want}
            IN IF nxt = {} THEN Obs(m)
               ELSE LET p == Pick(nxt) f == Lib[p[1]].phr[p[2]].f
                        ts == {t \in 1 .. Len(f) - 1 : SubSeq(f[t], 1, Need(m)) = want}
                    IN {SubSeq(f[Pick(ts) + 1], 1, Need(m))}
Follow == F("filter") /\ KeepHist /\ \E k \in Live : Len(st[k].cls) > 0 /\ \E x \in Along(k) : Do([o |-> "filter", s |-> k, x |-> x])
FilterBad == F("misfit") /\ \E k \in Live : Do([o |-> "filter", s |-> k, x |-> [i \in 1 .. Need(st[k]) - 1 |-> "1"]])
FilterLong == F("misfit") /\ \E k \in Live : Do([o |-> "filter", s |-> k, x |-> [i \in 1 .. Need(st[k]) + 1 |-> "0.25"]])
Query == F("query") /\ \E k \in Live : Do([o |-> "q", s |-> k])
Exit == F("exit") /\ \E k \in Live, n \in -1 .. 3, p \in {"0", "0.5", "1", "0.125", "1.5", "-0.5", "NaN"} :
          st[k].kind = "hmm" /\ ((n < 0 \/ ~In(p, "0", "1")) => F("misfit")) /\ Do([o |-> "exitp", s |-> k, n |-> n, p |-> p])
\* transition matrices between classes
Row(n, j) == LET w == [i \in 1 .. n |-> FInt(1 + ((i * j + i) % 3))] z == FSum(w) IN [i \in 1 .. n |-> FDiv(w[i], z)]
HSet == F("exit") /\ \E k \in Live, v \in 1 .. 3 : LET n == Len(st[k].cls) IN
  /\ st[k].kind = "hmm" /\ n > 0
  /\ \/ Do([o |-> "hset", s |-> k, f |-> "prior", v |-> Row(n, v)])
     \/ Do([o |-> "hset", s |-> k, f |-> "trans", v |-> [i \in 1 .. n |-> Row(n, i + v)]])
     \/ Do([o |-> "hset", s |-> k, f |-> "exit", v |-> [i \in 1 .. n |-> <<"0.1", "0.5", "0", "1">>[1 + ((i + v) % 4)]]])
Next == Finish \/ New \/ Del \/ Copy \/ Assign \/ Through \/ Load \/ LoadNew \/ Stop \/ Cap \/ Win \/ SetMul \/ DSet \/ DSet \/ CSet \/ CReset \/ Hier1 \/ Thread \/ Est
        \/ Train \/ Train \/ Train1 \/ Train1 \/ TrainNull \/ Rm \/ Clear \/ Reset \/ Filter \/ Filter \/ Follow \/ Follow \/ Follow \/ Follow \/ FilterBad \/ FilterLong \/ Query \/ Exit \/ HSet
Spec == Init /\ [][Next]_vars
VarsView == <<st, h, IF KeepHist THEN last ELSE "">>
Emit == (last = "end") => PrintT("@S" \o ToJson(h))
Inv == AllOK(st)
At(m, l) == CHOOSE i \in 1 .. Len(m.cls) : m.cls[i].l = l
\* training or removing one class leaves the numbers and the parameters of all others
Isolated == [][last' \in {"train1", "rm"} => \A k \in MSlots :
  LET a == st[k] b == st'[k] IN
  Cardinality({l \in Lab : Has(a, l) # Has(b, l) \/ (Has(a, l) /\ (a.cls[At(a, l)].num # b.cls[At(b, l)].num \/ a.cls[At(a, l)].par # b.cls[At(b, l)].par))}) <= 1]_vars
\* only training changes numbers; only removal, clearing, loading and training change which classes there are
Steady == [][last' \in {"sset", "dset", "cset", "creset", "creset1", "mt", "est", "reset", "filter", "q", "hset", "exitp", "through"} =>
  \A k \in MSlots : [i \in 1 .. Len(st[k].cls) |-> <<st[k].cls[i].l, st[k].cls[i].num, st[k].cls[i].par>>] = [i \in 1 .. Len(st'[k].cls) |-> <<st'[k].cls[i].l, st'[k].cls[i].num, st'[k].cls[i].par>>]]_vars
\* copies and stored models have the same numbers
Faithful == [][last' \in {"mcopy", "massign", "mjson", "mjsonnew"} => \A k \in MSlots : st[k] # st'[k] =>
  \E u \in MSlots : LET N(m) == [i \in 1 .. Len(m.cls) |-> <<m.cls[i].l, m.cls[i].num, m.cls[i].par, m.cls[i].exitp>>] IN N(st[u]) = N(st'[k]) /\ st[u].hp = st'[k].hp /\ st[u].sh = st'[k].sh]_vars
=============================================================================
