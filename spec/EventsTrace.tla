---------------------------- MODULE EventsTrace ----------------------------
EXTENDS Events, TraceBase
VARIABLES st, l
TraceInit == st = InitSt /\ l = 1
Step(e) ==
  IF e.op.o = "Begin" THEN st' = InitSt
  ELSE IF e.op.o = "End" THEN st' = st
  ELSE /\ e.op.o # "Crash"
       /\ IF e.op.o = "notify"
          THEN LET x == Notification(st, e.op.g, e.op.v, e.r.v) IN
               Holds(l, <<"notification", st>>, x.ok, e.r) /\ st' = x.st
          ELSE Holds(l, "no call", e.s.calls = 0, e.s) /\ st' = Apply(st, e.op)
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
