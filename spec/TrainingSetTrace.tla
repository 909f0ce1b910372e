-------------------------- MODULE TrainingSetTrace --------------------------
EXTENDS TrainingSet, TraceBase
IdxO == <<-1, 2, 5>>
LabO == <<"", "a", "b">>
VARIABLES st, l
TraceInit == st = TInit /\ l = 1
StatsAgree(exp, got) ==
  /\ AgreeF(l, "stats", <<exp.v.mean, exp.v.std>>, <<got.v.mean, got.v.std>>, "1E-4", "1E-4")
  /\ exp.v.min = <<>> \/ AgreeF(l, "minmax", <<exp.v.min, exp.v.max>>, <<got.v.min, got.v.max>>, "0", "0")
\* columns without spread are not normalised to anything meaningful
NormAgree(exp, got) ==
  /\ Holds(l, "norm size", Len(exp.v) = Len(got.v), got)
  /\ \A k \in 1 .. Len(exp.v) : \A d \in 1 .. Len(exp.v[k]) :
       ~FFinite(exp.v[k][d]) \/ AgreeF(l, "norm", exp.v[k][d], got.v[k][d], "1E-3", "1E-3")
Step(e) ==
  IF e.op.o = "Begin" THEN Agree(l, "state", TProj(TInit), e.s) /\ st' = TInit
  ELSE IF e.op.o = "End" THEN st' = st
  ELSE /\ e.op.o # "Crash"
       /\ LET x == TApply(st, e.op) IN
            /\ (IF e.op.o = "stats" THEN StatsAgree(x.r, e.r)
                ELSE IF e.op.o = "norm" THEN NormAgree(x.r, e.r) ELSE Agree(l, e.op, x.r, e.r))
            /\ Agree(l, e.op, TProj(x.st), e.s)
            /\ st' = x.st
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
