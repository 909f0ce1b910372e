---------------------------- MODULE GaussianTrace ----------------------------
EXTENDS Gaussian, TraceBase
VARIABLES st, l
TraceInit == st = InitSt /\ l = 1
Rel == "1e-7"
\* the recorded distribution c agrees with the specified one
CheckOne(ll, k, g, c) ==
  /\ Agree(ll, <<k, "alive">>, g.alive, c.alive)
  /\ g.alive =>
     /\ Agree(ll, <<k, "settings">>, <<g.bi, g.dim, g.din, g.mode>>, <<c.bi, c.dim, c.din, c.mode>>)
     /\ Agree(ll, <<k, "sizes">>, <<g.dim, Size(g.mode, g.dim), Size(g.mode, g.dim), IF g.bi THEN Size(g.mode, g.din) ELSE 0, IF g.bi THEN Size(g.mode, g.dim - g.din) ELSE 0>>,
              <<Len(c.mean), Len(c.cov), Len(c.inv), Len(c.iinv), Len(c.ocov)>>)
     /\ AgreeF(ll, <<k, "mean">>, g.mean, c.mean, Rel, "1e-12")
     /\ (g.known => AgreeF(ll, <<k, "covariance">>, g.cov, c.cov, Rel, "1e-7"))
     /\ IF g.inv = <<>> THEN AgreeF(ll, <<k, "determinant">>, "0", c.det, "0", "0")
        ELSE Regular(g.inv, g.mode, g.dim) =>
             /\ AgreeF(ll, <<k, "inverse">>, Inverse(g.inv, g.mode, g.dim), c.inv, "1e-6", "1e-8")
             /\ AgreeF(ll, <<k, "determinant">>, Det(g.inv, g.mode, g.dim), c.det, "1e-7", "0")
             /\ g.bi => /\ AgreeF(ll, <<k, "input inverse">>, LET b == InBlock(g) IN IF g.din = 0 THEN <<>> ELSE IF g.mode = "full" THEN FInv(b, g.din) ELSE [i \in 1 .. g.din |-> FDiv("1", g.inv[i])], c.iinv, "1e-6", "1e-8")
                        /\ AgreeF(ll, <<k, "input determinant">>, IF g.din = 0 THEN "1" ELSE FDet(InBlock(g), g.din), c.idet, "1e-7", "0")
     /\ (g.oc /\ Regular(g.inv, g.mode, g.dim) => AgreeF(ll, <<k, "output covariance">>, CondCov(g.inv, g.mode, g.dim, g.din), c.ocov, "1e-6", "1e-7"))
CheckR(ll, op, exp, got) ==
  IF exp.k = "ok" /\ op.o \in {"toe", "cov2e"} THEN
    /\ Agree(ll, op, "ok", got.k)
    /\ AgreeF(ll, <<op, "centre">>, <<exp.v.x, exp.v.y>>, <<got.v[1], got.v[2]>>, "1e-6", "1e-7")
    /\ Holds(ll, <<op, "axes">>, FFinite(got.v[3]) /\ FFinite(got.v[4]) /\ FLe(got.v[4], FMul(got.v[3], "1.000001")) /\ FLe("0", got.v[4]), got.v)
    /\ AgreeF(ll, <<op, "ellipse">>, exp.v.cov, EllipseCov(got.v), "1e-5", FMul("1e-5", FAdd(exp.v.cov[1], exp.v.cov[3])))
  ELSE IF op.o = "reg" THEN AgreeF(ll, op, exp, got, "1e-4", "1e-3")
  ELSE AgreeF(ll, op, exp, got, "1e-6", "0")
\* an ellipse is given in single precision: the covariance it produced is taken over once it was found close enough
Adopt(g, c) == [g EXCEPT !.cov = c.cov, !.inv = IF @ = <<>> THEN @ ELSE c.cov]
Step(e) ==
  IF e.op.o = "Begin" THEN st' = InitSt
  ELSE IF e.op.o = "End" THEN st' = st
  ELSE /\ e.op.o # "Crash"
       /\ LET x == Apply(st, e.op) IN
            /\ CheckR(l, e.op, x.r, e.r)
            /\ LET y == IF e.op.o = "frome" /\ x.r.k = "ok" /\ AgreeF(l, "covariance", x.st.g[e.op.s].cov, e.s[e.op.s].cov, "1e-5", "1e-5")
                        THEN [x.st EXCEPT !.g[e.op.s] = Adopt(@, e.s[e.op.s])] ELSE x.st
               IN /\ \A k \in 1 .. Len(e.s) : CheckOne(l, k, y.g[k], e.s[k])
                  /\ st' = y
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
