---------------------------- MODULE TrainingTrace ----------------------------
EXTENDS Training, TraceBase
\* ref: the numbers that training each class of each set gives, one after the other
VARIABLES st, ref, line
TraceInit == st = NoModel /\ ref = <<>> /\ line = 1
NumOf(s, l) == IF l \in DOMAIN ref[s.num[l]] THEN ref[s.num[l]][l] ELSE "none"
Order == <<"", "a", "b", "c d">>
RestOK(s, r) ==
  r.rest => /\ s.alive /\ ~s.busy
            /\ Same(r.trained, s.kept # {}) /\ Same(r.size, Cardinality(s.kept))
            /\ \A i \in 1 .. 4 : Same(r.cls[i], IF Order[i] \in s.kept THEN NumOf(s, Order[i]) ELSE "")
ValueOK(s, w, op, r) ==
  CASE op.o = "poll" -> IF r.v = 0 THEN ~s.busy ELSE Same(r.v, 1) /\ (s.busy \/ s.saw[w])
    [] op.o \in {"filter", "copy"} /\ r.k = "ok" -> Same(r.v, Cardinality(s.kept))
    [] OTHER -> TRUE
\* states after the event, from one of the states before it
After(s, e) ==
  LET o == e.op.o IN
  CASE o = "call" -> IF CanCall(s, e.op.by) THEN {Call(s, e.op.by, e.op.op)} ELSE {}
    [] o = "ret" -> IF s.alive /\ s.call[e.op.by] = e.op.op /\ CanReturn(s, e.op.by, e.r.k) /\ ValueOK(s, e.op.by, e.op.op, e.r)
                    THEN {x \in {Return(s, e.op.by, e.r.k)} : RestOK(x, e.s)} ELSE {}
    [] o = "ev" -> IF ~e.r.mine THEN {}
                   ELSE IF e.op.st = "alldone" THEN (IF CanAll(s) THEN {AllEv(s)} ELSE {})
                   ELSE IF ~(e.op.l \in Labels) THEN {}
                   ELSE IF e.op.st = "run" THEN (IF CanRun(s, e.op.l) /\ Same(e.r.it, s.it[e.op.l] + 1) THEN {RunEv(s, e.op.l)} ELSE {})
                   ELSE IF CanEnd(s, e.op.l, e.op.st) /\ (e.op.st = "done" => Same(e.r.h, NumOf(s, e.op.l))) THEN {EndEv(s, e.op.l, e.op.st)} ELSE {}
    [] o = "fin" -> IF CanFin(s, e.op.l, e.op.st) THEN {Fin(s, e.op.l, e.op.st)} ELSE {}
    [] OTHER -> {}
Brief(s) == IF s.alive THEN [busy |-> s.busy, pend |-> s.pend, kept |-> s.kept, dn |-> s.dn, fl |-> s.fl, req |-> s.req, owed |-> s.owed, call |-> s.call, ph |-> s.ph, lis |-> s.lis] ELSE s
Step(e) ==
  LET o == e.op.o IN
  IF o = "Begin" THEN st' = NoModel /\ ref' = <<>>
  ELSE IF o = "Again" THEN Holds(line, "the run before has not come to its end", ~st.alive, Brief(st)) /\ st' = Fresh(e.op.conf) /\ ref' = e.s.ref
  ELSE IF o = "End" THEN Holds(line, "the run has not come to its end", ~st.alive, Brief(st)) /\ UNCHANGED <<st, ref>>
  ELSE IF o = "Crash" THEN FALSE
  ELSE LET R == Reach({st})
           N == UNION {After(s, e) : s \in R}
       IN /\ Holds(line, <<"not allowed", e.op, "in", Brief(st)>>, N # {}, <<e.r, e.s>>)
          /\ st' \in N /\ UNCHANGED ref
TraceNext == line <= Len(Trace) /\ Step(Trace[line]) /\ line' = line + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<st, ref, line>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
