---------------------------- MODULE JsonTextTrace ----------------------------
EXTENDS JsonText, TraceBase
CONSTANTS Slots
VARIABLES st, line
TraceInit == st = [s \in Slots |-> Null] /\ line = 1
At1(s, k) == s[k]
Result(op, r) ==
  CASE op.o = "equal" -> (Same(r.v, 1) => Equal(st[op.s], st[op.k])) /\ ((Equal(st[op.s], st[op.k]) /\ ~HasNull(st[op.s])) => Same(r.v, 1))
    [] OTHER -> Same(Apply(st, op).r, r)
AllSame(a, b) == \A s \in Slots : Equal(a[s], b[s])
Written(op, r, s) ==
  LET p == Parse(r.v.text) x == st[op.s] IN
  /\ Holds(line, <<op, "written as JSON">>, p.q \in {"good", "odd"}, <<p.q, r.v.text>>)
  /\ Holds(line, <<op, "the text is the value", x>>, Fits(x, p.v), r.v.text)
  /\ Holds(line, <<op, "read again">>, r.v.again = 1, r.v.text)
  /\ Holds(line, <<op, "what is read again", p.v>>, Equal(p.v, s[op.k]), s[op.k])
  /\ Holds(line, <<op, "others">>, \A k \in Slots \ {op.k} : Equal(st[k], s[k]), s)
Readable(op, r, s) ==
  LET p == Parse(op.text) done == Same(r, [k |-> "ok", v |-> 1]) IN
  /\ CASE p.q = "good" -> Holds(line, <<op, "JSON is read">>, done, r)
       [] p.q = "bad" -> Holds(line, <<op, "what is not JSON is refused">>, Same(r, [k |-> "ok", v |-> 0]), r)
       [] OTHER -> TRUE
  /\ (done /\ p.q \in {"good", "odd"}) => Holds(line, <<op, "what is read", p.v>>, Equal(p.v, s[op.s]), s[op.s])
  /\ Holds(line, <<op, "others">>, \A k \in Slots \ {op.s} : Equal(st[k], s[k]), s)
Step(e) ==
  LET o == e.op.o IN
  IF o = "Begin" THEN st' = [s \in Slots |-> Null]
  ELSE IF o = "End" THEN UNCHANGED st
  ELSE IF o = "Crash" THEN Holds(line, "crash", FALSE, e.op)
  ELSE IF o = "deep" THEN Holds(line, <<e.op, "nested">>, IF e.op.n <= 900 THEN Same(e.r, [k |-> "ok", v |-> e.op.z]) ELSE TRUE, e.r) /\ UNCHANGED st
  ELSE IF o = "write" THEN Same(e.r.k, "ok") /\ Written(e.op, e.r, e.s) /\ st' = e.s
  ELSE IF o = "read" THEN Readable(e.op, e.r, e.s) /\ st' = e.s
  ELSE /\ Holds(line, <<e.op, "result">>, Result(e.op, e.r), e.r)
       /\ Holds(line, <<e.op, "values", Apply(st, e.op).st>>, AllSame(Apply(st, e.op).st, e.s), e.s)
       /\ st' = Eager(Apply(st, e.op).st)
TraceNext == line <= Len(Trace) /\ Step(Trace[line]) /\ line' = line + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<st, line>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
