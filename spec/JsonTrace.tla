----------------------------- MODULE JsonTrace -----------------------------
(* Every document the library was given to read has the outcome it must have. *)
EXTENDS JsonDoc, TraceBase
VARIABLES line, counts
TraceInit == line = 1 /\ counts = [k \in 0 .. 3 |-> 0]
Step(e) ==
  IF e.op.o \in {"Begin", "End"} THEN counts' = counts
  ELSE IF e.op.o = "Crash" THEN FALSE
  ELSE LET v == Eager(Verdict(e.op.ty, e.op.doc)) IN
       IF Holds(line, <<"reading a document of kind", v, "of type", e.op.ty>>, ReadOK(e.op.ty, e.op.doc, e.op.n, e.r.v), [e.r.v EXCEPT !.after = 0])
       THEN counts' = [counts EXCEPT ![v] = @ + 1] ELSE FALSE
TraceNext == line <= Len(Trace) /\ Step(Trace[line]) /\ line' = line + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<line, counts>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
