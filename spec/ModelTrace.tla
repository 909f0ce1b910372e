----------------------------- MODULE ModelTrace -----------------------------
(* Behaviours of real models, checked step by step: which classes exist and with   *)
(* what parameters; every training (events, stopping, and the numbers after each     *)
(* iteration, recomputed from those before); every filtering step.               *)
EXTENDS Model, Hmm, TraceBase
LabO == <<"", "a", "b", "c d">>
Frames(k, l) == [i \in 1 .. Len(PhrasesOf(k, l)) |-> PhrasesOf(k, l)[i].f]
Table == Eager([k \in 1 .. Len(Lib) |-> [l \in {LabO[i] : i \in 1 .. Len(LabO)} |-> Frames(k, l)]])
\* equal frames have equal names: the first set and label where they are found
Names == Eager([k \in 1 .. Len(Lib) |-> [l \in {LabO[i] : i \in 1 .. Len(LabO)} |->
           CHOOSE p \in (1 .. k) \X (1 .. Len(LabO)) : Table[p[1]][LabO[p[2]]] = Table[k][l] /\
             \A r \in (1 .. k) \X (1 .. Len(LabO)) : Table[r[1]][LabO[r[2]]] = Table[k][l] => p[1] < r[1] \/ (p[1] = r[1] /\ p[2] <= r[2])]])
Key0(k, l) == Names[k][l]
VARIABLES st,    \* the models
          fs,    \* filtering state of each
          memo,  \* numbers of trained classes, by what they are a function of
          line   \* of the trace (a name that no operator has for a parameter: TLC would not compute constants once)
tvars == <<st, fs, memo, line>>

Idle == [on |-> FALSE, a |-> <<>>, ah |-> <<>>, w |-> <<>>]
FreshF(m) == [cap |-> m.sh.win, on |-> FALSE, c |-> [i \in 1 .. Len(m.cls) |-> Idle]]
NoF == [k \in MSlots |-> FreshF(DeadM)]
ModeOf(kind, par) == IF par[IF kind = "gmm" THEN 4 ELSE 5] = "0" THEN "full" ELSE "diag"
IsErg(kind, par) == kind = "hmm" /\ par[6] = Ergodic
\* transitions of a class as decoding uses them
Cyclic(tr, erg, n) == IF n <= 1 THEN tr ELSE IF erg THEN [tr EXCEPT ![(n - 1) * n + 1] = F32("0.05")] ELSE [tr EXCEPT ![2 * n] = F32("0.05")]
QOf(mm, m, i) == LET c == m.cls[i] q == mm[c.num].q IN
  IF m.kind = "hmm" /\ c.cyc THEN [q EXCEPT !.tr = Cyclic(@, IsErg("hmm", c.par), States("hmm", c.par))] ELSE q

ProjS(s) == [alive |-> TRUE, bi |-> s.bi, dim |-> s.dim, din |-> s.din, cols |-> s.cols, emin |-> s.emin, emax |-> s.emax, pct |-> s.pct, win |-> s.win]
ProjCf(c) == LET in == SelectSeq(LabelOrder, LAMBDA x : x \in DOMAIN c.cls) IN
  [d |-> c.d, mt |-> c.mt, est |-> c.est, inc |-> in, cls |-> [i \in 1 .. Len(in) |-> c.cls[in[i]]]]
ProjM(mm, m) == IF ~m.alive THEN [alive |-> FALSE]
  ELSE [alive |-> TRUE, kind |-> m.kind, sh |-> ProjS(m.sh), cf |-> ProjCf(m.cf), hp |-> m.hp,
        cls |-> [i \in 1 .. Len(m.cls) |-> [l |-> m.cls[i].l, par |-> m.cls[i].par, tr |-> QOf(mm, m, i).tr, exitp |-> m.cls[i].exitp, hash |-> mm[m.cls[i].num].hash, own |-> TRUE]]]
Proj(mm, ms) == [i \in 1 .. Cardinality(MSlots) |-> ProjM(mm, ms[i])]

\* ------------------------------------------------------------------- training
\* what a training of label lb of model m (settings after the start) is about
Task(m, op, lb) ==
  LET par == Effective(m.cf, lb)
      sh == Shaped(m.sh, op.set)
      phr == Frames(op.set, lb)
  IN [kind |-> m.kind, par |-> par, sh |-> sh, phr |-> phr, n |-> sh.dim, mode |-> ModeOf(m.kind, par), erg |-> IsErg(m.kind, par),
      N |-> States(m.kind, par), K |-> Int1(IF m.kind = "gmm" THEN par[1] ELSE par[2]),
      rel |-> IF m.kind = "gmm" THEN par[2] ELSE par[3], ab |-> IF m.kind = "gmm" THEN par[3] ELSE par[4],
      reg |-> Reg(Flat(phr), IF m.kind = "gmm" THEN par[2] ELSE par[3], IF m.kind = "gmm" THEN par[3] ELSE par[4], sh.dim),
      fixed |-> FLe(sh.emin, sh.emax), can |-> Trainable(m.kind, par, op.set, lb)]
\* has a training stopped after i iterations, the last two likelihoods being x (before) and y?
LowLik == "-1.7976931348623157E308"
Stops(t, i, x, y) ==
  \/ i >= 1000
  \/ t.fixed /\ FLe(t.sh.emax, FInt(i))
  \/ ~t.fixed /\ FLe(t.sh.emin, FInt(i)) /\ FLe(FMul("100", FAbs(FDiv(FSub(y, x), y))), t.sh.pct)
Expected(t) == IF FLt(t.sh.emin, t.sh.emax) THEN t.sh.emax ELSE t.sh.emin
Step1(t, q) == IF t.kind = "gmm" THEN LET s == EmStep(q.st[1], Flat(t.phr), t.reg, t.mode, t.n) IN [ll |-> s.ll, q |-> [pri |-> <<>>, tr |-> <<>>, st |-> <<s.g>>]]
               ELSE BwStep(q, t.phr, t.reg, t.mode, t.n, t.erg)
Guess(t) == IF t.kind = "gmm" THEN LET g == GmmInit(t.phr, t.K, t.reg, t.mode, t.n) IN [near |-> g.near, q |-> [pri |-> <<>>, tr |-> <<>>, st |-> <<g.g>>]]
            ELSE HmmInit(t.phr, t.N, t.K, t.rel, t.ab, t.mode, t.n, t.erg, Int1(t.sh.emax))
\* the computation is far from singular, so that rounding does not matter
Solid(t, q) == \A i \in 1 .. Len(q.st) : Regular(q.st[i]) /\ Sound(q.st[i], t.mode, t.n)
CanGuess(t) == t.kind = "gmm" \/ t.K = 1 \/ t.fixed
NumbersClose(ln, what, q, got, t, rel, abs) ==
  /\ AgreeF(ln, <<what, "states">>, q.st, got.st, rel, abs)
  /\ AgreeF(ln, <<what, "prior">>, q.pri, got.pri, "1e-4", "1e-6")
  /\ AgreeF(ln, <<what, "transitions">>, q.tr, got.tr, "1e-4", "1e-6")
OneIter(ln, t, prev, e, i) ==
  IF i = 1 THEN IF ~CanGuess(t) THEN TRUE
                ELSE LET g == Guess(t) IN IF g.near THEN TRUE ELSE IF ~Solid(t, g.q) THEN TRUE ELSE
                     LET x == Step1(t, g.q) IN AgreeF(ln, "likelihood of the first iteration", x.ll, e.ll, "1e-3", "1e-3") /\ NumbersClose(ln, "first iteration", x.q, e.num, t, "1e-3", "1e-5")
  ELSE IF ~prev.has THEN TRUE ELSE IF ~Solid(t, prev.num) THEN TRUE
       ELSE LET x == Step1(t, prev.num) IN AgreeF(ln, <<"likelihood of iteration", i>>, x.ll, e.ll, "1e-5", "1e-5") /\ NumbersClose(ln, <<"iteration", i>>, x.q, e.num, t, "1e-5", "1e-6")
Final(ln, t, prev, e) ==
  /\ Holds(ln, "shape of the class", Len(e.num.st) = t.N /\ \A i \in 1 .. t.N : Len(e.num.st[i]) = t.K /\ \A c \in 1 .. t.K : Len(e.num.st[i][c].m) = t.n /\ Len(e.num.st[i][c].c) = Size(t.mode, t.n), e.num)
  /\ LET z(s) == FSum(s)
         one(s) == FClose(z(s), "1", "1e-4", "1e-4") /\ \A k \in 1 .. Len(s) : FLe("0", s[k])
     IN /\ Holds(ln, "weights of the components", \A i \in 1 .. t.N : one([c \in 1 .. t.K |-> e.num.st[i][c].w]), e.num.st)
        /\ Holds(ln, "variances", \A i \in 1 .. t.N : \A c \in 1 .. t.K : \A d \in 1 .. t.n : FLt("0", Diag(e.num.st[i][c].c, t.mode, t.n)[d]), e.num.st)
        /\ IF t.kind = "gmm" THEN TRUE ELSE Holds(ln, "transitions", IF t.erg THEN Len(e.num.tr) = t.N * t.N /\ one(e.num.pri) /\ \A i \in 1 .. t.N : one(SubSeq(e.num.tr, (i - 1) * t.N + 1, i * t.N))
                                                      ELSE Len(e.num.tr) = 2 * t.N /\ e.num.pri = <<>> /\ FEq(e.num.tr[2 * t.N], "0") /\ \A i \in 1 .. t.N : one(SubSeq(e.num.tr, 2 * i - 1, 2 * i)), <<e.num.pri, e.num.tr>>)
  /\ IF ~prev.has THEN TRUE ELSE IF t.kind = "gmm" THEN Agree(ln, "final numbers", prev.num, e.num)
                  ELSE Agree(ln, "final states", prev.num.st, e.num.st) /\ LET q == Ended(prev.num, t.erg) IN AgreeF(ln, "final transitions", q.tr, e.num.tr, "1e-6", "1e-9") /\ AgreeF(ln, "final prior", q.pri, e.num.pri, "1e-6", "1e-9")
\* the events of one class
ClassEvents(ln, t, E) ==
  LET k == Len(E) - 1 IN
  /\ Holds(ln, "a class ends once", k >= 0 /\ E[k + 1].st \in {"done", "error"} /\ \A i \in 1 .. k : E[i].st = "run", E)
  /\ \A i \in 1 .. k + 1 : Holds(ln, "the event names its model", E[i].mine, E[i])
  /\ \A i \in 1 .. k :
       /\ Agree(ln, "iteration", i, E[i].it)
       /\ AgreeF(ln, "progress", F32(FDiv(F32(FInt(i)), F32(Expected(t)))), E[i].pr, "1e-6", "0")
       /\ LET lik(j) == IF j <= 0 THEN LowLik ELSE E[j].ll IN
          Holds(ln, <<"stopping after iteration", i>>, E[k + 1].st = "error" \/ (Stops(t, i, lik(i - 1), lik(i)) <=> i = k), E[i])
       /\ Holds(ln, "likelihood", FFinite(E[i].ll), E[i])
       /\ IF ~E[i].has THEN TRUE ELSE OneIter(ln, t, IF i = 1 THEN [has |-> FALSE] ELSE E[i - 1], E[i], i)
  /\ IF E[k + 1].st = "done"
     THEN /\ Holds(ln, "a class without usable frames cannot be trained", t.can, E)
          /\ Holds(ln, "final numbers are there", E[k + 1].has /\ k >= 1, E[k + 1])
          /\ Agree(ln, "iterations at the end", k, E[k + 1].it)
          /\ Final(ln, t, IF E[k].has THEN E[k] ELSE [has |-> FALSE], E[k + 1])
     ELSE \* failing is right if there is nothing to learn from, or if the computation is not sound
          Holds(ln, "a training that can succeed does", ~t.can \/ (k = 0 /\ ~Solid(t, Guess(t).q)) \/ (k > 0 /\ E[k].has /\ ~Solid(t, E[k].num)), E)
TrainEvents(ln, m, op, evs) ==
  LET who == Trains(m, op)
      mine(lb) == SelectSeq(evs, LAMBDA e : e.l = lb /\ e.st # "alldone")
  IN IF who = {} THEN Agree(ln, "nothing is trained", <<>>, evs)
     ELSE /\ Holds(ln, "the training ends once, and after all classes", Len(evs) > 0 /\ evs[Len(evs)].st = "alldone" /\ evs[Len(evs)].l = "" /\ evs[Len(evs)].mine
                                                                       /\ \A i \in 1 .. Len(evs) - 1 : evs[i].st # "alldone" /\ evs[i].l \in who, evs)
          /\ \A lb \in who : ClassEvents(ln, Task(m, op, lb), mine(lb))
          /\ IF m.cf.mt # 0 THEN TRUE ELSE \* one after the other in sequential mode
             Holds(ln, "classes are trained in order", \A i, j \in 1 .. Len(evs) - 1 : i < j /\ evs[i].l # evs[j].l => (CHOOSE a \in 1 .. Len(LabelOrder) : LabelOrder[a] = evs[i].l) < (CHOOSE a \in 1 .. Len(LabelOrder) : LabelOrder[a] = evs[j].l), evs)
FailedIn(evs) == {evs[i].l : i \in {j \in 1 .. Len(evs) : evs[j].st = "error"}}
\* numbers learned; a class trained again on the same data has the same numbers
Learned(ln, mm, m, op, evs) ==
  LET good == {i \in 1 .. Len(evs) : evs[i].st = "done"}
      num(i) == Numbers(m.kind, Shaped(m.sh, op.set), Effective(m.cf, evs[i].l), op.set, evs[i].l)
      known == {i \in good : num(i) \in DOMAIN mm}
      new == {num(i) : i \in good} \ DOMAIN mm
      at(x) == CHOOSE i \in good : num(i) = x
  IN [ok |-> /\ \A i \in known : Agree(ln, <<"numbers of the same training", evs[i].l>>, mm[num(i)].hash, evs[i].hash) /\ Agree(ln, "transitions of the same training", mm[num(i)].q.tr, evs[i].num.tr)
             /\ \A i, j \in good : num(i) = num(j) => Agree(ln, "numbers of the same training", evs[i].hash, evs[j].hash),
      mm |-> [x \in DOMAIN mm \cup new |-> IF x \in DOMAIN mm THEN mm[x] ELSE [hash |-> evs[at(x)].hash, q |-> evs[at(x)].num]]]

\* ------------------------------------------------------------------ filtering
Keep(cap, w) == IF FLt(cap, FInt(Len(w))) THEN Tail(w) ELSE w
MeanLog(w) == FDiv(FSum(w), FInt(Len(w)))
LikTol == "1e-6"
\* the likeliest state reported, and what follows from it
StateResult(ln, m, i, q, a, r, x) ==
  LET N == Len(q.st) IN
  /\ Holds(ln, "likeliest state", r.ls \in 1 .. N /\ FLe(FMaxSeq(a), FAdd(a[r.ls], FMul("1e-9", FMaxSeq(a)))), r)
  /\ AgreeF(ln, "progress", Progress(a, N, r.ls), r.prog, LikTol, "1e-9")
  /\ Holds(ln, "progress is between 0 and 1", In(r.prog, "0", "1.000001"), r.prog)
  /\ IF ~m.sh.bi THEN r.out = <<>> /\ r.ocov = <<>>
     ELSE LET g == Regression(x, q, a, r.ls, m.cls[i].par[7], ModeOf("hmm", m.cls[i].par), m.sh.dim, m.sh.din)
          IN AgreeF(ln, "regression of the class", g.out, r.out, "1e-4", "1e-5") /\ AgreeF(ln, "its covariance", g.ocov, r.ocov, "1e-4", "1e-6")
ClassFilter(ln, mm, m, f, x, R) ==
  LET M == Len(m.cls)
      Q == Eager([i \in 1 .. M |-> QOf(mm, m, i)])
      md(i) == ModeOf(m.kind, m.cls[i].par)
      B == Eager([i \in 1 .. M |-> IF m.kind = "gmm" THEN <<>> ELSE StateProbs(x, Q[i], md(i), m.sh.dim, m.sh.din, m.sh.bi)])
  IN IF m.kind = "gmm" THEN
       \A i \in 1 .. M : LET r == MixFilter(x, Q[i].st[1], md(i), m.sh.dim, m.sh.din, m.sh.bi) IN
         /\ AgreeF(ln, <<"likelihood of class", m.cls[i].l>>, r.lik, R[i].inst, LikTol, "1e-200")
         /\ AgreeF(ln, "responsibilities", r.beta, R[i].beta, LikTol, "1e-9")
         /\ AgreeF(ln, "regression of the class", r.out, R[i].out, "1e-4", "1e-5") /\ AgreeF(ln, "its covariance", r.ocov, R[i].ocov, "1e-4", "1e-6")
     ELSE IF Hier(m) THEN
       LET cls == [i \in 1 .. M |-> [q |-> Q[i], erg |-> IsErg("hmm", m.cls[i].par), ex |-> m.cls[i].exitp, b |-> B[i]]]
           X == IF f.on THEN HNext(cls, m.hp, [i \in 1 .. M |-> f.c[i].ah]) ELSE HInit(cls, m.hp)
       IN \A i \in 1 .. M :
            /\ AgreeF(ln, <<"forward variables of class", m.cls[i].l>>, X[i].ah, R[i].ah, LikTol, "1e-9")
            /\ AgreeF(ln, <<"likelihood of class", m.cls[i].l>>, X[i].inst, R[i].inst, LikTol, "1e-200")
            /\ AgreeF(ln, "exit likelihood", X[i].xl, R[i].xl, LikTol, "1e-200") /\ AgreeF(ln, "exit ratio", X[i].xr, R[i].xr, LikTol, "1e-9")
            /\ Holds(ln, "forward variables", \A e \in 1 .. 3 : \A k \in 1 .. Len(R[i].ah[e]) : FLe("0", R[i].ah[e][k]), R[i].ah)
            /\ StateResult(ln, m, i, Q[i], [k \in 1 .. Len(R[i].ah[1]) |-> FAdd(R[i].ah[1][k], R[i].ah[2][k])], R[i], x)
     ELSE \A i \in 1 .. M :
            LET N == Len(Q[i].st)
                erg == IsErg("hmm", m.cls[i].par)
                X == IF f.c[i].on THEN FwdNext(Q[i], erg, N, f.c[i].a, B[i]) ELSE FwdInit(Q[i], erg, N, B[i])
            IN /\ AgreeF(ln, <<"forward variables of class", m.cls[i].l>>, X.a, R[i].a, LikTol, "1e-9")
               /\ AgreeF(ln, <<"likelihood of class", m.cls[i].l>>, X.p, R[i].inst, LikTol, "1e-200")
               /\ StateResult(ln, m, i, Q[i], R[i].a, R[i], x)
\* the filtering state afterwards, from what was recorded
FilterNext(m, f, R) ==
  [f EXCEPT !.on = TRUE, !.c = [i \in 1 .. Len(m.cls) |->
     [on |-> TRUE, w |-> Keep(f.cap, Append(f.c[i].w, FLog(R[i].inst))),
      a |-> IF m.kind = "hmm" THEN R[i].a ELSE <<>>, ah |-> IF m.kind = "hmm" THEN R[i].ah ELSE <<>>]]]
\* results of the model from those of its classes
ModelFilter(ln, m, f2, v) ==
  LET M == Len(m.cls)
      R == v.cls
      z == FSum(v.inst)
      sm == FSum(v.sm)
      best == FMaxSeq(v.sml)
      md == ModeOf(m.kind, m.cf.d)
      dout == m.sh.dim - m.sh.din
      cdiag(i) == ModeOf(m.kind, m.cls[i].par) = "diag"
      cc(i, a, b) == IF cdiag(i) THEN (IF a = b THEN R[i].ocov[a] ELSE "0") ELSE R[i].ocov[(a - 1) * dout + b]
      big == CHOOSE i \in 1 .. M : m.cls[i].l = v.likeliest
  IN /\ \A i \in 1 .. M : AgreeF(ln, <<"smoothed log-likelihood of class", m.cls[i].l>>, MeanLog(f2.c[i].w), R[i].ll, "1e-9", "1e-9")
     /\ Agree(ln, "likelihoods", [i \in 1 .. M |-> R[i].inst], v.inst) /\ Agree(ln, "smoothed", [i \in 1 .. M |-> R[i].ll], v.sml)
     /\ AgreeF(ln, "smoothed likelihoods", [i \in 1 .. M |-> FExp(R[i].ll)], v.sm, "1e-9", "1e-300")
     /\ AgreeF(ln, "normalised likelihoods", [i \in 1 .. M |-> FDiv(v.inst[i], z)], v.instn, "1e-9", "1e-12")
     /\ AgreeF(ln, "normalised smoothed likelihoods", [i \in 1 .. M |-> IF FLt("0", sm) THEN FDiv(v.sm[i], sm) ELSE FDiv("1", FInt(M))], v.smn, "1e-9", "1e-12")
     /\ Holds(ln, "they sum to one", FClose(FSum(v.smn), "1", "1e-9", "1e-9") /\ FClose(FSum(v.instn), "1", "1e-9", "1e-9"), v.smn)
     /\ Holds(ln, "likeliest", \E i \in 1 .. M : m.cls[i].l = v.likeliest /\ FLe(best, FAdd(v.sml[i], "1e-9")), v)
     /\ IF ~m.sh.bi THEN v.out = <<>> /\ v.ocov = <<>>
        ELSE IF m.cf.est = 0 THEN Agree(ln, "output of the likeliest class", R[big].out, v.out) /\ Agree(ln, "its covariance", R[big].ocov, v.ocov)
        ELSE /\ AgreeF(ln, "output", [d \in 1 .. dout |-> FSum([i \in 1 .. M |-> FMul(v.smn[i], R[i].out[d])])], v.out, "1e-5", "1e-6")
             /\ AgreeF(ln, "output covariance", [k \in 1 .. Size(md, dout) |-> FSum([i \in 1 .. M |-> FMul(v.smn[i],
                    IF md = "full" THEN cc(i, RowOf(k, dout), ColOf(k, dout)) ELSE cc(i, k, k))])], v.ocov, "1e-5", "1e-7")

\* ----------------------------------------------------------------- behaviours
\* operations after which filtering starts afresh
NewF(op, x) ==
  CASE op.o \in {"mnew", "mdel", "mcopy", "mjson", "mjsonnew", "clear", "reset", "rm", "through"} -> [fs EXCEPT ![op.s] = FreshF(x.st[op.s])]
    [] op.o = "massign" -> IF op.s = op.u THEN fs ELSE [fs EXCEPT ![op.s] = FreshF(x.st[op.s])]
    [] op.o \in {"train", "train1"} -> IF Trains(st[op.s], op) = {} THEN fs ELSE [fs EXCEPT ![op.s] = FreshF(x.st[op.s])]
    [] OTHER -> fs
Advance(e) ==
  IF e.op.o = "Begin" THEN Agree(line, "state", Proj(<<>>, InitSt), e.s) /\ st' = InitSt /\ fs' = NoF /\ memo' = [x \in {} |-> 0]
  ELSE IF e.op.o = "End" THEN UNCHANGED <<st, fs, memo>>
  ELSE LET op == e.op
           m == st[op.s]
           tr == op.o \in {"train", "train1"}
           evs == IF tr /\ e.r.k = "ok" THEN e.r.v ELSE <<>>
           x == Apply(st, op, IF tr THEN FailedIn(evs) ELSE {})
           ln == IF tr /\ e.r.k = "ok" THEN Learned(line, memo, m, op, evs) ELSE [ok |-> TRUE, mm |-> memo]
       IN /\ op.o # "Crash"
          /\ Agree(line, <<op.o, "result">>, x.r.k, e.r.k)
          /\ IF e.r.k = "exc" THEN memo' = memo /\ fs' = fs
             ELSE IF tr THEN (IF TrainEvents(line, m, op, evs) /\ ln.ok THEN memo' = ln.mm /\ fs' = NewF(op, x) ELSE FALSE) \* (not an action: evaluated as a whole)
             ELSE IF op.o = "filter" /\ Len(m.cls) > 0
               THEN LET m2 == x.st[op.s]
                        f == IF Stale(m) THEN FreshF(m2) ELSE fs[op.s]
                        f2 == FilterNext(m2, f, e.r.v.cls)
                    IN IF ClassFilter(line, memo, m2, f, op.x, e.r.v.cls) /\ ModelFilter(line, m2, f2, e.r.v)
                       THEN fs' = [fs EXCEPT ![op.s] = f2] /\ memo' = memo ELSE FALSE
             ELSE Agree(line, op, IF op.o = "q" THEN x.r.v ELSE 0, e.r.v) /\ memo' = memo /\ fs' = NewF(op, x)
          /\ AgreeF(line, op.o, Proj(memo', x.st), e.s, "1e-15", "0")
          /\ st' = x.st
TraceInit == st = InitSt /\ fs = NoF /\ memo = [x \in {} |-> 0] /\ line = 1
TraceNext == line <= Len(Trace) /\ Advance(Trace[line]) /\ line' = line + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
