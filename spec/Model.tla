------------------------------- MODULE Model -------------------------------
(* Multi-class models (mixtures, hierarchical hidden Markov models): which       *)
(* classes a model has after any history of training, copying, storing and         *)
(* editing, with which parameters each was trained, and which numbers belong to     *)
(* each class.  The numbers of a trained class are named by what they are a          *)
(* function of: the kind of model, the stopping criteria, the parameters of the      *)
(* class, and the frames of its phrases - nothing else.                          *)
EXTENDS Settings, Json, IOUtils
CONSTANTS MSlots,         \* models
          LabelOrder,     \* labels, sorted
          Key(_, _)       \* the frames of class l of set k, or a name for them
\* training sets: [bi, dim, din, cols, phr: <<[i, l, f: frames]>>], from a file which the implementation reads as well
Lib == ndJsonDeserialize(IOEnv.SETS)
MKinds == {"gmm", "hmm"}
DeadM == [alive |-> FALSE, kind |-> "gmm", sh |-> DeadS, cf |-> DeadC, cls |-> <<>>, hp |-> [prior |-> <<>>, trans |-> <<>>, exit |-> <<>>]]
FreshM(k, bi) == [DeadM EXCEPT !.alive = TRUE, !.kind = k, !.sh = IF bi THEN SSet(FreshS, "bi", TRUE).v ELSE FreshS, !.cf = FreshC(k)]
InitSt == [k \in MSlots |-> DeadM]

PhrasesOf(k, l) == SelectSeq(Lib[k].phr, LAMBDA p : p.l = l)
LabelsOf(k) == {Lib[k].phr[i].l : i \in 1 .. Len(Lib[k].phr)}
Sorted(labels) == SelectSeq(LabelOrder, LAMBDA l : l \in labels)
Int1(s) == FFloor(s)
States(m, par) == IF m = "hmm" THEN Int1(par[1]) ELSE 1
\* a class can be trained if it has frames, and a hidden Markov model if a phrase has a frame for every state
Trainable(m, par, k, l) ==
  \E i \in 1 .. Len(PhrasesOf(k, l)) : Len(PhrasesOf(k, l)[i].f) >= (IF m = "hmm" THEN States(m, par) ELSE 1)
\* what the numbers of a class are a function of
Relevant(m, par) == IF m = "hmm" THEN SubSeq(par, 1, 6) ELSE par
Numbers(m, sh, par, k, l) == <<m, sh.emin, sh.emax, sh.pct, Relevant(m, par), Lib[k].bi, Lib[k].dim, Lib[k].din, Key(k, l)>>

DefaultExit == F32("0.1")
ExitsOf(m, par) == IF m = "hmm" THEN [i \in 1 .. States(m, par) |-> IF i = States(m, par) THEN DefaultExit ELSE "0"] ELSE <<>>
Class(m, k, l) == LET par == Effective(m.cf, l) IN
  [l |-> l, par |-> par, num |-> Numbers(m.kind, m.sh, par, k, l), exitp |-> ExitsOf(m.kind, par), cyc |-> FALSE, h |-> TRUE]
Uniform(n) == [prior |-> [i \in 1 .. n |-> FDiv("1", FInt(n))], trans |-> [i \in 1 .. n |-> [j \in 1 .. n |-> FDiv("1", FInt(n))]],
               exit |-> [i \in 1 .. n |-> "0.1"]]
Between(kind, n) == Uniform(IF kind = "gmm" THEN 0 ELSE n)
Hier(m) == m.kind = "hmm" /\ m.cf.d[8] = "1"
\* performance starts afresh: classes follow the decoding mode; decoded on their own they become cyclic
ResetM(m) ==
  IF m.kind = "gmm" THEN m
  ELSE [m EXCEPT !.cls = [i \in 1 .. Len(@) |-> [@[i] EXCEPT !.h = Hier(m), !.cyc = @ \/ ~Hier(m)]],
                 !.hp = IF Len(@.prior) = Len(m.cls) THEN @ ELSE Uniform(Len(m.cls))]
Cleared(m) == ResetM([m EXCEPT !.cls = <<>>, !.hp = [prior |-> <<>>, trans |-> <<>>, exit |-> <<>>]])
Shaped(sh, k) == LET s1 == SetDimS(sh, Lib[k].dim) IN [s1 EXCEPT !.din = IF s1.bi THEN Lib[k].din ELSE 0, !.cols = Lib[k].cols]
Merge(cls, new) == LET all == {cls[i].l : i \in 1 .. Len(cls)} \cup {new.l}
                       at(l) == IF l = new.l THEN new ELSE (CHOOSE c \in {cls[i] : i \in 1 .. Len(cls)} : c.l = l)
                   IN [i \in 1 .. Len(Sorted(all)) |-> at(Sorted(all)[i])]
Has(m, l) == \E i \in 1 .. Len(m.cls) : m.cls[i].l = l
Without(m, l) == [m EXCEPT !.cls = SelectSeq(@, LAMBDA c : c.l # l)]

Void == [k |-> "ok", v |-> 0]
Exc == [k |-> "exc", v |-> 0]
\* labels trained by an operation on model m ({}: none), or refused
Trains(m, op) ==
  IF op.set = 0 THEN {}
  ELSE IF op.o = "train" THEN LabelsOf(op.set) ELSE {op.l}
Refused(m, op) ==
  /\ op.set # 0
  /\ \/ op.o = "train" /\ Len(Lib[op.set].phr) > 0 /\ Lib[op.set].bi # m.sh.bi
     \/ op.o = "train1" /\ \/ op.l \notin LabelsOf(op.set)
                           \/ Lib[op.set].bi # m.sh.bi
                           \/ Len(m.cls) > 0 /\ (Lib[op.set].dim # m.sh.dim \/ (m.sh.bi /\ Lib[op.set].din # m.sh.din))
Untrainable(m, op) == {l \in Trains(m, op) : ~Trainable(m.kind, Effective(m.cf, l), op.set, l)}
\* failed: the classes whose training ended with an error
Trained(m, op, failed) ==
  IF Trains(m, op) = {} THEN m
  ELSE IF op.o = "train"
    THEN LET c == [Cleared(m) EXCEPT !.sh = Shaped(m.sh, op.set)]
             good == Sorted(LabelsOf(op.set) \ failed)
         IN ResetM([c EXCEPT !.cls = [i \in 1 .. Len(good) |-> Class(c, op.set, good[i])]])
  ELSE LET c == [m EXCEPT !.sh = Shaped(m.sh, op.set)]
           n == Class(c, op.set, op.l)
           with == [c EXCEPT !.cls = Merge(c.cls, n)]
           \* a class more, even for a moment, makes transitions between classes uniform again
           fixed == IF Has(m, op.l) THEN with ELSE [with EXCEPT !.hp = Between(m.kind, Len(m.cls) + 1)]
       IN ResetM(IF op.l \in failed THEN Without(fixed, op.l) ELSE fixed)

Put(st, s, m) == [st EXCEPT ![s] = m]
Ok(st) == [st |-> st, r |-> Void]
No(st) == [st |-> st, r |-> Exc]
\* the hierarchical flag of a class is not stored
Loaded(m) == [m EXCEPT !.cls = [i \in 1 .. Len(@) |-> [@[i] EXCEPT !.h = TRUE]]]
Index(m, l) == IF Has(m, l) THEN (CHOOSE i \in 1 .. Len(m.cls) : m.cls[i].l = l) - 1 ELSE -1
Need(m) == IF m.sh.bi THEN m.sh.din ELSE m.sh.dim
Stale(m) == \E i \in 1 .. Len(m.cls) : m.kind = "hmm" /\ m.cls[i].h # Hier(m)

Apply(st, op, failed) ==
  CASE op.o = "mnew" -> Ok(Put(st, op.s, FreshM(op.k, op.bi)))
    [] op.o = "mdel" -> Ok(Put(st, op.s, DeadM))
    [] op.o \in {"mcopy", "massign"} -> Ok(Put(st, op.s, st[op.u]))
    [] op.o \in {"mjson", "mjsonnew"} -> Ok(Put(st, op.s, Loaded(st[op.u])))
    [] op.o = "sset" -> LET x == SSet(st[op.s].sh, op.f, op.v) IN IF x.ok THEN Ok([st EXCEPT ![op.s].sh = x.v]) ELSE No(st)
    [] op.o = "dset" -> LET c == st[op.s].cf IN
         IF Valid(c.k, op.f, op.v) THEN Ok([st EXCEPT ![op.s].cf.d = PSet(@, c.k, op.f, op.v)]) ELSE No(st)
    [] op.o = "cset" -> LET c == Touched(st[op.s].cf, op.l) IN
         IF Valid(c.k, op.f, op.v) THEN Ok([st EXCEPT ![op.s].cf = [c EXCEPT !.cls[op.l] = PSet(@, c.k, op.f, op.v)]])
         ELSE No([st EXCEPT ![op.s].cf = c])
    [] op.o = "creset" -> Ok([st EXCEPT ![op.s].cf.cls = [l \in {} |-> <<>>]])
    [] op.o = "creset1" -> Ok([st EXCEPT ![op.s].cf.cls = [l \in DOMAIN @ \ {op.l} |-> @[l]]])
    [] op.o = "mt" -> Ok([st EXCEPT ![op.s].cf.mt = op.v])
    [] op.o = "est" -> Ok([st EXCEPT ![op.s].cf.est = op.v])
    [] op.o \in {"train", "train1"} -> IF Refused(st[op.s], op) THEN No(st) ELSE Ok(Put(st, op.s, Trained(st[op.s], op, failed)))
    [] op.o = "rm" -> IF Has(st[op.s], op.l) THEN Ok(Put(st, op.s, ResetM(Without(st[op.s], op.l)))) ELSE No(st)
    [] op.o = "clear" -> Ok(Put(st, op.s, Cleared(st[op.s])))
    [] op.o = "reset" -> Ok(Put(st, op.s, ResetM(st[op.s])))
    \* a class goes through copies and assignments back to its place
    [] op.o = "through" -> Ok(IF Has(st[op.s], op.l) THEN Put(st, op.s, ResetM(st[op.s])) ELSE st)
    [] op.o = "filter" -> LET m == st[op.s] IN
         IF Len(m.cls) > 0 /\ Len(op.x) < Need(m) THEN No(st)
         ELSE Ok(IF Stale(m) THEN Put(st, op.s, ResetM(m)) ELSE st)
    [] op.o = "q" -> LET m == st[op.s] IN
         [st |-> st, r |-> [k |-> "ok", v |-> [size |-> Len(m.cls), has |-> [i \in 1 .. Len(LabelOrder) |-> Has(m, LabelOrder[i])],
                                               at |-> [i \in 1 .. Len(LabelOrder) |-> Index(m, LabelOrder[i])], tr |-> Len(m.cls) > 0, busy |-> FALSE]]]
    [] op.o = "hset" -> Ok([st EXCEPT ![op.s].hp[op.f] = op.v])
    [] op.o = "exitp" -> LET m == st[op.s] IN
         IF m.cls = <<>> THEN Ok(st)
         ELSE IF (\E i \in 1 .. Len(m.cls) : op.n < 0 \/ op.n >= States("hmm", m.cls[i].par) \/ ~m.cls[i].h) \/ ~In(op.p, "0", "1") THEN No(st)
         ELSE Ok([st EXCEPT ![op.s].cls = [i \in 1 .. Len(@) |-> [@[i] EXCEPT !.exitp = [@ EXCEPT ![op.n + 1] = F32(op.p)]]]])

\* --------------------------------------------------------------- invariants
ModelOK(m) == m.alive =>
  /\ ParamsOK(m.kind, m.cf.d)
  /\ m.sh.dim >= (IF m.sh.bi THEN 2 ELSE 1) /\ (IF m.sh.bi THEN m.sh.din \in 1 .. m.sh.dim - 1 ELSE m.sh.din = 0) /\ Len(m.sh.cols) = m.sh.dim
  /\ \A i \in 1 .. Len(m.cls) :
       /\ m.cls[i].l = Sorted({m.cls[j].l : j \in 1 .. Len(m.cls)})[i]
       \* a class carries numbers that were computed in the current dimensions
       /\ m.cls[i].num[7] = m.sh.dim /\ m.cls[i].num[6] = m.sh.bi
       /\ Relevant(m.kind, m.cls[i].par) = m.cls[i].num[5]
       /\ Len(m.cls[i].exitp) = (IF m.kind = "hmm" THEN States("hmm", m.cls[i].par) ELSE 0)
  /\ m.kind = "hmm" => Len(m.hp.prior) = Len(m.cls) /\ Len(m.hp.trans) = Len(m.cls) /\ Len(m.hp.exit) = Len(m.cls)
AllOK(st) == \A k \in MSlots : ModelOK(st[k])
=============================================================================
