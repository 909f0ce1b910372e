------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The settings of models: shared parameters (modality, dimensions, EM       *)
(* criteria, likelihood window), and configurations (default parameters and   *)
(* class-specific overrides) of each kind of model.  All values are strings.  *)
(***************************************************************************)
EXTENDS Settings
CONSTANTS SSlots, CSlots, LabelOrder

InitSt == [s |-> [k \in SSlots |-> DeadS], c |-> [k \in CSlots |-> DeadC]]
Overridden(c) == SelectSeq(LabelOrder, LAMBDA l : l \in DOMAIN c.cls)
ProjC(c) == IF ~c.alive THEN [alive |-> FALSE] ELSE
  [alive |-> TRUE, k |-> c.k, d |-> c.d, mt |-> c.mt, est |-> c.est, inc |-> Overridden(c),
   cls |-> [i \in 1 .. Len(Overridden(c)) |-> c.cls[Overridden(c)[i]]]]
ProjS(s) == IF ~s.alive THEN [alive |-> FALSE] ELSE s
Proj(st) == [s |-> [k \in SSlots |-> ProjS(st.s[k])], c |-> [k \in CSlots |-> ProjC(st.c[k])]]

Void == [k |-> "ok", v |-> 0]
Exc == [k |-> "exc", v |-> 0]
Ok(st) == [st |-> st, r |-> Void]
No(st) == [st |-> st, r |-> Exc]
Apply(st, op) ==
  CASE op.o = "snew" -> Ok([st EXCEPT !.s[op.s] = FreshS])
    [] op.o = "sdel" -> Ok([st EXCEPT !.s[op.s] = DeadS])
    [] op.o \in {"scopy", "sassign"} -> Ok([st EXCEPT !.s[op.s] = st.s[op.u]])
    [] op.o \in {"sjson", "sjsonnew"} -> Ok([st EXCEPT !.s[op.s] = st.s[op.u]])
    [] op.o = "sset" -> LET x == SSet(st.s[op.s], op.f, op.v) IN IF x.ok THEN Ok([st EXCEPT !.s[op.s] = x.v]) ELSE No(st)
    [] op.o = "cnew" -> Ok([st EXCEPT !.c[op.c] = FreshC(op.k)])
    [] op.o = "cdel" -> Ok([st EXCEPT !.c[op.c] = DeadC])
    [] op.o \in {"ccopy", "cassign"} -> Ok([st EXCEPT !.c[op.c] = st.c[op.u]])
    [] op.o \in {"cjson", "cjsonnew"} -> Ok([st EXCEPT !.c[op.c] = st.c[op.u]])
    [] op.o = "dset" -> LET c == st.c[op.c] IN
         IF Valid(c.k, op.f, op.v) THEN Ok([st EXCEPT !.c[op.c].d = PSet(@, c.k, op.f, op.v)]) ELSE No(st)
    [] op.o = "cset" -> LET c == Touched(st.c[op.c], op.l) IN
         IF Valid(c.k, op.f, op.v) THEN Ok([st EXCEPT !.c[op.c] = [c EXCEPT !.cls[op.l] = PSet(@, c.k, op.f, op.v)]])
         ELSE No([st EXCEPT !.c[op.c] = c])
    [] op.o = "cget" -> LET c == Touched(st.c[op.c], op.l) IN [st |-> [st EXCEPT !.c[op.c] = c], r |-> [k |-> "ok", v |-> c.cls[op.l]]]
    [] op.o = "cput" -> LET c == st.c[op.c] IN Ok([st EXCEPT !.c[op.c].cls = Own(c, op.l, Effective(st.c[op.u], op.m)),
                                                             !.c[op.u] = IF op.u = op.c THEN [c EXCEPT !.cls = Own(Touched(c, op.m), op.l, Effective(c, op.m))] ELSE Touched(@, op.m)])
    [] op.o = "mode" -> Ok([st EXCEPT !.c[op.c].mt = op.v])
    [] op.o = "est" -> Ok([st EXCEPT !.c[op.c].est = op.v])
    [] op.o = "reset" -> Ok([st EXCEPT !.c[op.c].cls = [l \in {} |-> <<>>]])
    [] op.o = "reset1" -> Ok([st EXCEPT !.c[op.c].cls = [l \in DOMAIN @ \ {op.l} |-> @[l]]])

\* --------------------------------------------------------------- invariants
SharedOK(st) == \A k \in SSlots : LET s == st.s[k] IN s.alive =>
  /\ s.dim >= (IF s.bi THEN 2 ELSE 1) /\ Len(s.cols) = s.dim
  /\ (IF s.bi THEN s.din \in 1 .. s.dim - 1 ELSE s.din = 0)
  /\ In(s.emin, "1", UMax) /\ In(s.emax, "0", UMax) /\ In(s.pct, "0", DMax) /\ In(s.win, "1", UMax)
ConfigOK(st) == \A k \in CSlots : LET c == st.c[k] IN c.alive => ParamsOK(c.k, c.d) /\ \A l \in DOMAIN c.cls : ParamsOK(c.k, c.cls[l])
=============================================================================
