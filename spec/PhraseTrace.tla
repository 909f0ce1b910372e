---------------------------- MODULE PhraseTrace ----------------------------
EXTENDS Phrase, TraceBase
VARIABLES st, l
TraceInit == st = InitSt /\ l = 1
\* an empty selection has no statistics worth comparing
StatsAgree(exp, got) ==
  /\ AgreeF(l, "stats", [exp EXCEPT !.v = [mean |-> @.mean, std |-> @.std]],
                        [got EXCEPT !.v = [mean |-> @.mean, std |-> @.std]], "1E-5", "1E-6")
  /\ exp.v.min = <<>> \/ AgreeF(l, "minmax", <<exp.v.min, exp.v.max>>, <<got.v.min, got.v.max>>, "0", "0")
Step(e) ==
  IF e.op.o = "Begin" THEN Agree(l, "state", Proj(InitSt), e.s) /\ st' = InitSt
  ELSE IF e.op.o = "End" THEN st' = st
  ELSE /\ e.op.o # "Crash"
       /\ LET x == Apply(st, e.op) IN
            /\ (IF e.op.o = "stats" THEN StatsAgree(x.r, e.r) ELSE Agree(l, e.op, x.r, e.r))
            /\ Agree(l, e.op, Proj(x.st), e.s)
            /\ st' = x.st
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
