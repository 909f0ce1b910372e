------------------------------ MODULE Training ------------------------------
(* Training in threads, as it can be observed: calls and returns of the caller   *)
(* and of listeners, events, and what the model is when it is at rest.  Which     *)
(* thread does what inside is left open: two steps, the beginning of a training    *)
(* and its coming to rest, may happen unseen at any moment where they are          *)
(* allowed.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils
CONSTANTS Labels
\* training sets: [bi, dim, din, phr: <<[i, l, f]>>]
Lib == ndJsonDeserialize(IOEnv.SETS)
Who == {"c", "w", "a"}   \* the caller, a listener of a class's event, a listener of the last event
NoCall == [o |-> "none"]
\* conf: [kind, bi, n, mt]; mt: 0 one after the other, 1 in threads, 2 in the background
Fresh(conf) ==
  [alive |-> TRUE, conf |-> conf, mt |-> conf.mt,
   busy |-> FALSE, rb |-> FALSE,   \* training; in the background
   pend |-> {},                    \* classes whose outcome has not been reported
   dn |-> {}, fl |-> {},           \* reported in this training: done, failed
   kept |-> {},                    \* trained classes
   num |-> [l \in Labels |-> 0],   \* the set a class was trained with
   it |-> [l \in Labels |-> 0], lim |-> [l \in Labels |-> -1],
   req |-> {},                     \* classes that may be cancelled
   owed |-> 0,                     \* the last event has not been given yet
   dim |-> <<1, 0>>,
   call |-> [w \in Who |-> NoCall], ph |-> [w \in Who |-> "no"],
   saw |-> [w \in Who |-> FALSE],  \* a training was going on at some moment of the call
   known |-> {}, sure |-> {},      \* when a removal is called: classes there are, certainly are
   lis |-> <<>>]                   \* listeners at work: <<label, status>>
NoModel == [alive |-> FALSE]
HasData(k) == k # 0 /\ Lib[k].phr # <<>>
LabelsOf(k) == {Lib[k].phr[i].l : i \in 1 .. Len(Lib[k].phr)}
DimOf(k) == <<Lib[k].dim, Lib[k].din>>
\* with these frames, training succeeds
Able(conf, k, l) == \E i \in 1 .. Len(Lib[k].phr) : Lib[k].phr[i].l = l /\ Len(Lib[k].phr[i].f) >= (IF conf.kind = "hmm" THEN conf.n ELSE 1)

\* what a call of train does: nothing, refuse, or train these classes
Nothing(op) == (op.o = "train" /\ ~HasData(op.k)) \/ (op.o = "train1" /\ op.k = 0)
Refused(st, op) == ~Nothing(op) /\ ((op.o = "train1" /\ op.l \notin LabelsOf(op.k)) \/ Lib[op.k].bi # st.conf.bi)
Asked(op) == IF op.o = "train" THEN LabelsOf(op.k) ELSE {op.l}
Trains(st, op) == op.o \in {"train", "train1"} /\ ~Nothing(op) /\ ~Refused(st, op)
Misfit(st, op) == op.o = "train1" /\ DimOf(op.k) # st.dim
Classes(st) == st.kept \cup st.pend \cup st.dn \cup st.fl

\* ---------------------------------------------------------------- unseen steps
InClassListener(st) == \E i \in 1 .. Len(st.lis) : st.lis[i][2] # "alldone"
CanRest(st) == st.alive /\ st.busy /\ st.pend = {} /\ ~InClassListener(st)
Rest(st) == [st EXCEPT !.busy = FALSE, !.kept = @ \cup st.dn, !.dn = {}, !.fl = {}, !.req = {}, !.owed = @ + 1]
CanStart(st, w) ==
  /\ st.alive /\ st.ph[w] = "begun" /\ w # "w" /\ Trains(st, st.call[w])
  /\ LET op == st.call[w] IN
     \/ ~st.busy /\ st.owed = 0 /\ (Misfit(st, op) => st.kept = {})
     \* one more class joins a training in the background
     \/ op.o = "train1" /\ st.busy /\ st.rb /\ st.mt = 2 /\ st.pend # {} /\ op.l \notin st.pend /\ ~Misfit(st, op)
\* a call that another thread is in may stop what starts meanwhile
Stopped(op) == IF op.o \in {"cancel", "clear", "del", "train"} THEN Labels ELSE IF op.o \in {"cancel1", "rm", "train1"} THEN {op.l} ELSE {}
Stopping(st, w) == UNION {Stopped(st.call[x]) : x \in {y \in {"c", "a"} \ {w} : st.ph[y] = "begun"}}
Start(st, w) ==
  LET op == st.call[w] L == Asked(op)
  IN [st EXCEPT !.busy = TRUE, !.saw = [x \in Who |-> st.ph[x] # "no"], !.rb = IF st.busy THEN @ ELSE st.mt = 2, !.pend = @ \cup L, !.ph[w] = "started", !.dim = DimOf(op.k),
                !.kept = IF op.o = "train" THEN {} ELSE @ \ L, !.dn = @ \ L, !.fl = @ \ L, !.req = (@ \ L) \cup (L \cap Stopping(st, w)),
                !.num = [l \in Labels |-> IF l \in L THEN op.k ELSE @[l]],
                !.it = [l \in Labels |-> IF l \in L THEN 0 ELSE @[l]], !.lim = [l \in Labels |-> IF l \in L THEN -1 ELSE @[l]]]
Unseen(st) == (IF CanRest(st) THEN {Rest(st)} ELSE {}) \cup {Start(st, w) : w \in {x \in {"c", "a"} : CanStart(st, x)}}
RECURSIVE Reach(_)
Reach(S) == LET N == S \cup UNION {Unseen(s) : s \in S} IN IF N = S THEN S ELSE Reach(N)

\* ------------------------------------------------------------------ seen steps
\* classes that a call may cancel
Targets(st, w, op) ==
  CASE op.o \in {"cancel"} -> st.pend
    [] op.o = "cancel1" -> st.pend \cap {op.l}
    [] w = "w" -> {}
    [] op.o \in {"clear", "del"} -> st.pend
    [] op.o = "rm" -> st.pend \cap {op.l}
    [] op.o = "train" -> IF Trains(st, op) THEN st.pend ELSE {}
    [] op.o = "train1" -> IF Trains(st, op) THEN st.pend \cap {op.l} ELSE {}
    [] OTHER -> {}
CanCall(st, w) == st.alive /\ st.ph[w] = "no" /\ (w = "w" => InClassListener(st)) /\ (w = "a" => \E i \in 1 .. Len(st.lis) : st.lis[i][2] = "alldone")
Call(st, w, op) == [st EXCEPT !.call[w] = op, !.ph[w] = "begun", !.saw[w] = st.busy, !.req = @ \cup Targets(st, w, op),
                              !.known = IF op.o = "rm" /\ w = "c" THEN Classes(st) ELSE @, !.sure = IF op.o = "rm" /\ w = "c" THEN Classes(st) \ st.fl ELSE IF w = "w" THEN @ \ Targets(st, w, op) ELSE @]

\* events: one at a time
CanRun(st, l) == st.alive /\ l \in st.pend /\ ~InClassListener(st) /\ st.lim[l] # 0
RunEv(st, l) == [st EXCEPT !.it[l] = @ + 1, !.lim[l] = IF @ > 0 THEN @ - 1 ELSE @, !.lis = Append(@, <<l, "run">>)]
CanEnd(st, l, how) ==
  /\ st.alive /\ l \in st.pend /\ ~InClassListener(st)
  /\ CASE how = "done" -> Able(st.conf, st.num[l], l)
       [] how = "error" -> ~Able(st.conf, st.num[l], l)
       [] OTHER -> l \in st.req
EndEv(st, l, how) == [st EXCEPT !.pend = @ \ {l}, !.req = @ \ {l}, !.sure = IF how = "error" THEN @ \ {l} ELSE @, !.it[l] = 0, !.lim[l] = -1, !.dn = IF how = "done" THEN @ \cup {l} ELSE @, !.fl = IF how = "done" THEN @ ELSE @ \cup {l}, !.lis = Append(@, <<l, how>>)]
CanAll(st) == st.alive /\ st.owed > 0 /\ ~InClassListener(st)
AllEv(st) == [st EXCEPT !.owed = @ - 1, !.lis = Append(@, <<"", "alldone">>)]
CanFin(st, l, how) == st.alive /\ \E i \in 1 .. Len(st.lis) : st.lis[i] = <<l, how>>
Fin(st, l, how) == LET i == CHOOSE i \in 1 .. Len(st.lis) : st.lis[i] = <<l, how>> IN [st EXCEPT !.lis = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]

\* a call may return with this result: "ok" or "exc"
Over(st) == ~st.busy /\ st.owed = 0
CanReturn(st, w, k) ==
  LET op == st.call[w] ok == k = "ok" IN
  /\ st.alive /\ st.ph[w] # "no"
  /\ CASE op.o \in {"train", "train1"} ->
            IF Nothing(op) THEN ok
            ELSE IF w = "w" \/ Refused(st, op) THEN ~ok
            ELSE IF st.ph[w] = "begun" THEN ~ok /\ Misfit(st, op) /\ Classes(st) # {} /\ op.l \notin st.pend
            ELSE ok /\ (st.rb \/ (~st.busy /\ st.owed = 0))
       \* from inside, a request; otherwise, the end of what was asked to end
       [] op.o = "cancel" -> ok /\ (w = "c" => Over(st))
       [] op.o = "cancel1" -> ok /\ (w = "c" => op.l \notin st.pend)
       [] op.o = "rm" -> IF w # "c" THEN ~ok
                         ELSE IF ok THEN op.l \in st.known \ st.pend ELSE op.l \notin st.sure
       [] op.o = "clear" -> IF w = "w" THEN ~ok ELSE ok /\ ~st.busy
       [] op.o \in {"filter", "reset", "copy", "json"} -> IF ok THEN ~st.busy ELSE st.saw[w]
       [] op.o \in {"into", "load"} -> IF ok THEN Over(st) ELSE st.saw[w]
       [] op.o = "wait" -> ok /\ ~st.busy
       [] op.o = "waitdone" -> ok /\ Over(st)
       [] op.o = "del" -> ok /\ Over(st) /\ st.lis = <<>>
       [] OTHER -> ok
Return(st, w, k) ==
  LET op == st.call[w] ok == k = "ok"
      s == [st EXCEPT !.call[w] = NoCall, !.ph[w] = "no", !.saw[w] = FALSE, !.known = IF op.o = "rm" /\ w = "c" THEN {} ELSE @, !.sure = IF op.o = "rm" /\ w = "c" THEN {} ELSE @]
  IN CASE op.o = "del" -> NoModel
       [] op.o = "rm" /\ ok -> [s EXCEPT !.kept = @ \ {op.l}, !.dn = @ \ {op.l}, !.fl = @ \ {op.l}]
       [] op.o \in {"clear"} /\ ok -> [s EXCEPT !.kept = {}]
       [] op.o \in {"into", "load"} /\ ok -> [s EXCEPT !.kept = {}, !.mt = st.conf.mt, !.dim = Fresh(st.conf).dim]
       [] op.o = "mt" -> [s EXCEPT !.mt = op.v]
       \* a class that was asked to end from inside takes at most one more step
       [] op.o \in {"cancel", "cancel1"} /\ w = "w" -> [s EXCEPT !.lim = [l \in Labels |-> IF l \in Targets(st, w, op) THEN 1 ELSE @[l]]]
       [] OTHER -> s
\* what is seen of a model at rest
Quiet(st) == st.alive => (~st.busy => st.pend = {} /\ st.dn = {} /\ st.fl = {} /\ st.req = {})
Sane(st) == st.alive => /\ st.pend \cap (st.dn \cup st.fl) = {} /\ st.dn \cap st.fl = {} /\ (st.kept \cap (st.pend \cup st.dn \cup st.fl)) = {}
                        /\ st.owed \in {0, 1} /\ (st.busy => st.owed = 0)
=============================================================================
