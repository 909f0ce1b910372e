-------------------------------- MODULE Hmm --------------------------------
(* Hidden Markov models of one class: forward and backward variables,           *)
(* Baum-Welch re-estimation, initial guess, and online decoding, alone or inside  *)
(* the hierarchical model.                                                      *)
(* A class is q = [pri, tr, st]: prior (ergodic only), transitions, and one         *)
(* mixture per state.  Ergodic transitions are the N x N matrix; left-right ones    *)
(* are, for each state, the probability to stay and to move to the next (the last    *)
(* state's second entry leads back to the first: it is 0 in training, and a fixed     *)
(* 0.05 when classes are decoded on their own).                                *)
EXTENDS Mixture
Ergodic == "0"
LeftRight == "1"
Tr(q, erg, N, i, j) ==
  IF erg THEN q.tr[(i - 1) * N + j]
  ELSE IF i = j THEN q.tr[2 * i - 1] ELSE IF j = i + 1 \/ (i = N /\ j = 1) THEN q.tr[2 * i] ELSE "0"
\* states from which j is reached, and the weight of the way (one state: its loop and the cyclic entry)
From(q, erg, N, a, j) ==
  IF erg THEN FSum([i \in 1 .. N |-> FMul(a[i], q.tr[(i - 1) * N + j])])
  ELSE FAdd(FMul(a[j], q.tr[2 * j - 1]), IF j > 1 THEN FMul(a[j - 1], q.tr[2 * j - 2]) ELSE FMul(a[N], q.tr[2 * N]))
\* b: likelihoods of one frame in each state
FwdInit(q, erg, N, b) ==
  LET w == Eager([i \in 1 .. N |-> IF erg THEN FMul(q.pri[i], b[i]) ELSE IF i = 1 THEN b[1] ELSE "0"])
      s == FSum(w)
  IN IF FLt("0", s) THEN [a |-> Eager([i \in 1 .. N |-> FDiv(w[i], s)]), p |-> s]
     ELSE [a |-> Eager([i \in 1 .. N |-> FDiv("1", FInt(N))]), p |-> "1"]
FwdNext(q, erg, N, a, b) ==
  LET w == Eager([j \in 1 .. N |-> FMul(From(q, erg, N, a, j), b[j])])
      s == FSum(w)
  IN IF FLt("1e-300", s) THEN [a |-> Eager([j \in 1 .. N |-> FDiv(w[j], s)]), p |-> s]
     ELSE [a |-> w, p |-> "Infinity"]
RECURSIVE Fwd(_, _, _, _, _, _)
\* B[t]: frame likelihoods; the list of [a, p]
Fwd(q, erg, N, B, t, acc) ==
  IF t > Len(B) THEN acc
  ELSE Fwd(q, erg, N, B, t + 1, Append(acc, IF t = 1 THEN FwdInit(q, erg, N, B[1]) ELSE FwdNext(q, erg, N, acc[t - 1].a, B[t])))
Huge(v) == IF FFinite(v) THEN v ELSE "1e100"
RECURSIVE Bwd(_, _, _, _, _, _, _)
\* backward variables from the last frame down to frame t, scaled by the same factors 1/p
Bwd(q, erg, N, B, f, t, acc) ==
  IF t = 0 THEN acc
  ELSE LET c == FDiv("1", f[t].p)
           nx == acc[1]
           w == IF t = Len(B) THEN [i \in 1 .. N |-> c]
                ELSE [i \in 1 .. N |-> Huge(FMul(c,
                   IF erg THEN FSum([j \in 1 .. N |-> FMul(FMul(q.tr[(i - 1) * N + j], nx[j]), B[t + 1][j])])
                   ELSE FAdd(FMul(FMul(q.tr[2 * i - 1], nx[i]), B[t + 1][i]),
                             IF i < N THEN FMul(FMul(q.tr[2 * i], nx[i + 1]), B[t + 1][i + 1]) ELSE "0")))]
       IN Bwd(q, erg, N, B, f, t - 1, <<Eager(w)>> \o acc)
\* likelihoods of every frame of every phrase in every state: total and by component
Pieces(q, phr, mode, n) ==
  LET pr == Eager([i \in 1 .. Len(q.st) |-> Joint(q.st[i], mode, n)])
  IN Eager([h \in 1 .. Len(phr) |-> [t \in 1 .. Len(phr[h]) |-> [i \in 1 .. Len(q.st) |-> Parts(phr[h][t], q.st[i], pr[i])]]])
TransReg == F32("1e-5")
\* one step of Baum-Welch over the phrases (empty ones do not count)
BwStep(q, all, reg, mode, n, erg) ==
  LET phr == SelectSeq(all, LAMBDA x : Len(x) > 0)
      N == Len(q.st)
      K == Len(q.st[1])
      H == Len(phr)
      pc == Pieces(q, phr, mode, n)
      B == Eager([h \in 1 .. H |-> [t \in 1 .. Len(phr[h]) |-> [i \in 1 .. N |-> FSum(pc[h][t][i])]]])
      f == Eager([h \in 1 .. H |-> Fwd(q, erg, N, B[h], 1, <<>>)])
      b == Eager([h \in 1 .. H |-> Bwd(q, erg, N, B[h], f[h], Len(B[h]), <<>>)])
      gam == Eager([h \in 1 .. H |-> [t \in 1 .. Len(B[h]) |-> [i \in 1 .. N |-> FMul(FMul(f[h][t].a[i], b[h][t][i]), f[h][t].p)]]])
      \* occupation of component c of state i, over all frames in order
      gm == Eager([i \in 1 .. N |-> [c \in 1 .. K |->
              Flat([h \in 1 .. H |-> [t \in 1 .. Len(B[h]) |-> IF FLt("0", B[h][t][i]) THEN FDiv(FMul(gam[h][t][i], pc[h][t][i][c]), B[h][t][i]) ELSE FMul(gam[h][t][i], pc[h][t][i][c])]])]])
      X == Flat(phr)
      cs == Eager([d \in 1 .. n |-> Column(X, d)])
      S == Eager([i \in 1 .. N |-> [c \in 1 .. K |-> FSum(gm[i][c])]])
      occ == Eager([i \in 1 .. N |-> FSum(Flat([h \in 1 .. H |-> [t \in 1 .. Len(B[h]) |-> gam[h][t][i]]]))])
      some(s) == FLt("0", s)
      mu == Eager([i \in 1 .. N |-> [c \in 1 .. K |-> [d \in 1 .. n |-> IF some(S[i][c]) THEN FDiv(FDot(gm[i][c], cs[d]), S[i][c]) ELSE "0"]]])
      wt(i, c) == LET z == FSum(S[i]) IN IF some(z) THEN FDiv(S[i][c], z) ELSE FDiv("1", FInt(K))
      st == Eager([i \in 1 .. N |-> [c \in 1 .. K |-> [w |-> wt(i, c), m |-> mu[i][c],
                    c |-> WCov(cs, gm[i][c], mu[i][c], IF some(S[i][c]) THEN S[i][c] ELSE "1", reg, mode, n)]]])
      g1 == Eager([i \in 1 .. N |-> FSum([h \in 1 .. H |-> gam[h][1][i]])])
      \* expected number of steps from i to j
      eps(i, j) == FSum(Flat([h \in 1 .. H |-> [t \in 1 .. Len(B[h]) - 1 |->
                     FMul(FMul(FMul(f[h][t].a[i], IF erg THEN q.tr[(i - 1) * N + j] ELSE IF i = j THEN q.tr[2 * i - 1] ELSE q.tr[2 * i]), b[h][t + 1][j]), B[h][t + 1][j])]]))
      div(i) == FAdd(occ[i], FMul("2", TransReg))
      rg == FMul(FInt(H), TransReg)
      tr == IF erg THEN [k \in 1 .. N * N |-> FDiv(eps(RowOf(k, N), ColOf(k, N)), div(RowOf(k, N)))]
            ELSE [k \in 1 .. 2 * N |-> LET i == (k + 1) \div 2 IN
                    IF k % 2 = 1 THEN FDiv(FAdd(eps(i, i), IF i < N THEN rg ELSE FMul("2", rg)), div(i))
                    ELSE IF i < N THEN FDiv(FAdd(eps(i, i + 1), rg), div(i)) ELSE "0"]
  IN [ll |-> FSum(Flat([h \in 1 .. H |-> [t \in 1 .. Len(f[h]) |-> FLog(f[h][t].p)]])),
      q |-> [pri |-> IF erg THEN Eager([i \in 1 .. N |-> FDiv(g1[i], FSum(g1))]) ELSE <<>>, tr |-> Eager(tr), st |-> st]]
\* at the end of the training
Normal1(s) == LET z == FSum(s) IN Eager([i \in 1 .. Len(s) |-> IF FLt("0", z) THEN FDiv(s[i], z) ELSE FDiv("1", FInt(Len(s)))])
Ended(q, erg) ==
  LET N == Len(q.st)
      w == IF erg THEN N ELSE 2
  IN [q EXCEPT !.pri = IF erg THEN Normal1(@) ELSE @,
               !.tr = Flat([i \in 1 .. N |-> Normal1(SubSeq(@, (i - 1) * w + 1, i * w))])]

\* ------------------------------------------------------------ initial guess
\* a number of EM steps
RECURSIVE EmRun(_, _, _, _, _, _)
EmRun(g, X, reg, mode, n, k) == IF k = 0 THEN g ELSE EmRun(EmStep(g, X, reg, mode, n).g, X, reg, mode, n, k - 1)
\* N states, K components; iters: steps of the mixture training of each state
HmmInit(phr, N, K, rel, ab, mode, n, erg, iters) ==
  LET usable == SelectSeq(phr, LAMBDA x : Len(x) >= N)
      seg(i) == [h \in 1 .. Len(usable) |-> LET s == Len(usable[h]) \div N IN SubSeq(usable[h], (i - 1) * s + 1, i * s)]
      one(i) == LET sg == Eager(seg(i))
                    X == Flat(sg)
                    reg == Reg(X, rel, ab, n)
                    g0 == GmmInit(sg, K, reg, mode, n)
                IN [near |-> g0.near, g |-> EmRun(g0.g, X, reg, mode, n, IF K = 1 THEN 1 ELSE iters)]
      s == Eager([i \in 1 .. N |-> one(i)])
  IN [near |-> \E i \in 1 .. N : s[i].near,
      q |-> [pri |-> IF erg THEN [i \in 1 .. N |-> FDiv("1", FInt(N))] ELSE <<>>,
             tr |-> IF erg THEN [k \in 1 .. N * N |-> FDiv("1", FInt(N))] ELSE [k \in 1 .. 2 * N |-> IF k = 2 * N - 1 THEN "1" ELSE IF k = 2 * N THEN "0" ELSE "0.5"],
             st |-> Eager([i \in 1 .. N |-> [c \in 1 .. K |-> [s[i].g[c] EXCEPT !.w = FDiv("1", FInt(K))]]])]]

\* ------------------------------------------------------------------ decoding
\* likelihoods of an observation in each state
StateProbs(x, q, mode, n, din, bi) ==
  LET xi == IF bi THEN Sub(x, 1, din) ELSE Sub(x, 1, n)
  IN Eager([i \in 1 .. Len(q.st) |-> ObsProb(xi, q.st[i], IF bi THEN Inputs(q.st[i], mode, n, din) ELSE Joint(q.st[i], mode, n))])
\* window of states around the likeliest one s (from 1): [lo, hi), from 0
Window(N, s) == LET h == IF N \div 2 > 1 THEN N \div 2 ELSE 1 IN
  [lo |-> IF s - 1 - h >= 0 THEN s - 1 - h ELSE 0, hi |-> IF s - 1 + h <= N THEN s - 1 + h ELSE N]
\* a: weight of every state. Relative position in the class, between 0 and 1
Progress(a, N, s) ==
  LET w == Window(N, s)
      z == FSum([i \in 1 .. w.hi - w.lo |-> a[w.lo + i]])
  IN IF ~FLt("0", z) THEN "0"
     ELSE FDiv(FDiv(FSum([i \in 1 .. w.hi - w.lo |-> FMul(a[w.lo + i], FInt(w.lo + i - 1))]), z), FInt(IF N > 1 THEN N - 1 ELSE 1))
\* regression of a class from its states' weights; est: "0" all states, "1" the window, "2" the likeliest
Regression(x, q, a, s, est, mode, n, din) ==
  LET N == Len(q.st)
      w == IF est = "0" THEN [lo |-> 0, hi |-> N] ELSE Window(N, s)
      used == IF est = "2" THEN <<s>> ELSE [i \in 1 .. w.hi - w.lo |-> w.lo + i]
      z0 == FSum([i \in 1 .. Len(used) |-> a[used[i]]])
      z == IF FLt("0", z0) THEN z0 ELSE "1"
      r == Eager([i \in 1 .. Len(used) |-> MixFilter(x, q.st[used[i]], mode, n, din, TRUE)])
  IN IF est = "2" THEN [out |-> r[1].out, ocov |-> r[1].ocov]
     ELSE [out |-> Eager([d \in 1 .. n - din |-> FDiv(FSum([i \in 1 .. Len(used) |-> FMul(a[used[i]], r[i].out[d])]), z)]),
           ocov |-> Eager([k \in 1 .. Size(mode, n - din) |-> FDiv(FSum([i \in 1 .. Len(used) |-> FMul(FMul(a[used[i]], a[used[i]]), r[i].ocov[k])]), z)])]

\* hierarchical decoding.  A class is [q, erg, ex (exit probabilities), b (state likelihoods)]; its forward
\* variables ah = <<inside, leaving towards another class, leaving towards the start>>; hp: prior, transitions, exit.
HInit(cls, hp) ==
  LET w == Eager([k \in 1 .. Len(cls) |-> LET c == cls[k] N == Len(c.b) IN
             [i \in 1 .. N |-> IF c.erg THEN FMul(FMul(hp.prior[k], c.q.pri[i]), c.b[i]) ELSE IF i = 1 THEN FMul(hp.prior[k], c.b[1]) ELSE "0"]])
      inst == Eager([k \in 1 .. Len(cls) |-> FSum(w[k])])
      z == FSum(inst)
  IN Eager([k \in 1 .. Len(cls) |-> [ah |-> <<[i \in 1 .. Len(w[k]) |-> FDiv(w[k][i], z)], [i \in 1 .. Len(w[k]) |-> "0"], [i \in 1 .. Len(w[k]) |-> "0"]>>,
                                     inst |-> inst[k], xl |-> "0", xr |-> "0"]])
HNext(cls, hp, ah) ==
  LET M == Len(cls)
      v1 == Eager([k \in 1 .. M |-> FSum(ah[k][2])])
      v2 == Eager([k \in 1 .. M |-> FSum(ah[k][3])])
      into(k) == FSum([j \in 1 .. M |-> FAdd(FMul(v1[j], hp.trans[j][k]), FMul(hp.prior[k], v2[j]))])
      stay(k, j) == IF FLe("1", cls[k].ex[j]) THEN "0" ELSE FDiv(ah[k][1][j], FSub("1", cls[k].ex[j]))
      front(k) == LET c == cls[k] N == Len(c.b) e == into(k) IN
        IF c.erg THEN [i \in 1 .. N |-> FAdd(FSum([j \in 1 .. N |-> FMul(c.q.tr[(j - 1) * N + i], stay(k, j))]), FMul(c.q.pri[i], e))]
        ELSE [i \in 1 .. N |-> IF i = 1 THEN FAdd(FMul(c.q.tr[1], ah[k][1][1]), e)
                               ELSE FAdd(FMul(c.q.tr[2 * i - 1], stay(k, i)), FMul(c.q.tr[2 * i - 2], stay(k, i - 1)))]
      t == Eager([k \in 1 .. M |-> LET fr == Eager(front(k)) IN [i \in 1 .. Len(cls[k].b) |-> FMul(cls[k].b[i], fr[i])]])
      z == FSum([k \in 1 .. M |-> FSum(t[k])])
      raw == Eager([k \in 1 .. M |-> LET c == cls[k] N == Len(c.b) x == hp.exit[k] IN
               <<[i \in 1 .. N |-> FMul(FSub("1", c.ex[i]), t[k][i])],
                 [i \in 1 .. N |-> FMul(FMul(FSub("1", x), c.ex[i]), t[k][i])],
                 [i \in 1 .. N |-> FMul(FMul(x, c.ex[i]), t[k][i])]>>])
  IN Eager([k \in 1 .. M |-> LET xl == FAdd(FSum(raw[k][2]), FSum(raw[k][3]))
                                 inst == FAdd(xl, FSum(raw[k][1]))
                             IN [ah |-> [e \in 1 .. 3 |-> [i \in 1 .. Len(t[k]) |-> FDiv(raw[k][e][i], z)]],
                                 inst |-> inst, xl |-> xl, xr |-> IF FLt("0", inst) THEN FDiv(xl, inst) ELSE "0"]])
=============================================================================
