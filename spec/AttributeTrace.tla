-------------------------- MODULE AttributeTrace --------------------------
EXTENDS Attribute, TraceBase
VARIABLES st, l
TraceInit == st = InitSt /\ l = 1
Step(e) ==
  IF e.op.o = "Begin" THEN Agree(l, "state", Proj(InitSt), e.s) /\ st' = InitSt
  ELSE IF e.op.o = "End" THEN st' = st
  ELSE /\ e.op.o # "Crash"
       /\ LET x == Apply(st, e.op) IN
            AgreeF(l, e.op, x.r, e.r, "0", "0") /\ AgreeF(l, e.op, Proj(x.st), e.s, "0", "0") /\ st' = x.st
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
