---------------------------- MODULE ClustersTrace ----------------------------
EXTENDS Clusters, TraceBase
VARIABLES st, line
\* the centres as they were recorded: in training they are judged, then taken over
Learn1(k, d, mode) == <<>>
TraceInit == st = InitSt /\ line = 1
FramesOf(k) == LET RECURSIVE Cat(_, _)
                   Cat(i, acc) == IF i > Len(Lib[k].phr) THEN acc ELSE Cat(i + 1, acc \o Lib[k].phr[i].f)
               IN Eager(Cat(1, <<>>))
Rows(c, n) == [k \in 1 .. Len(c) \div n |-> SubSeq(c, (k - 1) * n + 1, k * n)]
\* a centre is the mean of some frames: not outside their range, unless it is the origin
InRange(X, c, n) ==
  \A k \in 1 .. Len(c) : (\A d \in 1 .. n : FEq(c[k][d], "0")) \/ (X # <<>> /\ \A d \in 1 .. n :
     LET col == [t \in 1 .. Len(X) |-> X[t][d]]
         hi == FMaxSeq(col) lo == FNeg(FMaxSeq([t \in 1 .. Len(X) |-> FNeg(col[t])]))
         tol == FMul("1e-5", FAdd(FAbs(hi), FAbs(lo)))
     IN FLe(c[k][d], FAdd(hi, tol)) /\ FLe(FSub(lo, tol), c[k][d]))
\* the threshold may decide differently only where it is nearly met
Tiny(d) == FLe(d[3], "1e-12")
Steady1(X, c, n) == LET s == Step(X, c, n) IN s.near \/ CloseV(s.cs, c, "1e-5", "1e-5")
Judge(op, m, c) ==
  LET n == Lib[op.k].dim
      X == FramesOf(op.k)
      first == Lib[op.k].phr[1].f
      K == Count(m.d)
      rows == Rows(c, n)
  IN /\ Holds(line, <<op, "number of centres">>, Len(c) = K * n, Len(c))
     /\ IF m.mode = "biased" THEN
          LET run == Run(X, Biased(first, K, n), n, FFloor(m.d[2]), m.d[3], FALSE) IN
          IF run.near \/ (K > 1 /\ ~Tiny(m.d) /\ NearThreshold(X, Biased(first, K, n), n, FFloor(m.d[2]), m.d[3])) THEN Holds(line, <<op, "centres within the data">>, InRange(X, rows, n), c)
          ELSE AgreeF(line, <<op, "centres">>, run.cs, rows, "1e-5", "1e-5")
        ELSE IF K = 1 THEN AgreeF(line, <<op, "centre">>, Step(X, <<[d \in 1 .. n |-> "0"]>>, n).cs, rows, "1e-5", "1e-5")
        ELSE /\ Holds(line, <<op, "centres within the data">>, InRange(X, rows, n), c)
             \* what does not move any more is where the means are
             /\ (m.d[2] = "50" /\ Tiny(m.d)) => Holds(line, <<op, "settled">>, Steady1(X, rows, n), c)
CheckR(op, exp, got) ==
  IF op.o = "filter" /\ exp.k = "ok" THEN
    /\ Agree(line, op, "ok", got.k)
    /\ LET cs == Rows(exp.v, Len(op.x)) IN
       /\ AgreeF(line, <<op, "distances">>, Dists([i \in 1 .. Len(op.x) |-> F32(op.x[i])], cs), got.v.dist, "1e-5", "1e-6")
       /\ Agree(line, <<op, "nearest">>, FArgMin(got.v.dist), got.v.near)
  ELSE Agree(line, op, exp, got)
ProjK(m) == IF m.alive THEN [alive |-> TRUE, d |-> m.d, mode |-> m.mode, cs |-> m.cs] ELSE [alive |-> FALSE]
Seen(e, k) == e.s[k]
Check1(k, m, c) ==
  /\ Agree(line, <<k, "alive">>, m.alive, c.alive)
  /\ m.alive => /\ AgreeF(line, <<k, "settings">>, m.d, c.d, "1e-7", "0")
                /\ Agree(line, <<k, "start">>, m.mode, c.mode)
                /\ AgreeF(line, <<k, "centres">>, m.cs, c.cs, "0", "0")
Trained(op) == op.o = "train" /\ op.k # 0 /\ Lib[op.k].phr # <<>>
Step1(e) ==
  IF e.op.o = "Begin" THEN st' = InitSt
  ELSE IF e.op.o = "End" THEN st' = st
  ELSE /\ e.op.o # "Crash"
       /\ LET x == Apply(st, e.op)
              y == IF Trained(e.op) THEN [x.st EXCEPT ![e.op.s].cs = IF Seen(e, e.op.s).alive THEN Seen(e, e.op.s).cs ELSE <<>>] ELSE x.st
          IN /\ CheckR(e.op, x.r, e.r)
             /\ (Trained(e.op) => Judge(e.op, st[e.op.s], Seen(e, e.op.s).cs))
             /\ \A k \in 1 .. Len(e.s) : Check1(k, y[k], e.s[k])
             /\ st' = y
TraceNext == line <= Len(Trace) /\ Step1(Trace[line]) /\ line' = line + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<st, line>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
