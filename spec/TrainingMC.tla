----------------------------- MODULE TrainingMC -----------------------------
(* All ways a caller, listeners and trainings can interleave.                  *)
EXTENDS Training, TLC
CONSTANTS KeepHist, Depth, Families, Kinds, Modes, Iter, Runs
VARIABLES st, h, last, cnt, base, on, fired
vars == <<st, h, last, cnt, base, on, fired>>
F(f) == f \in Families
\* a listener's reaction: to the n-th event of status st (of class l, "*": any)
\* cnt counts events of the status the listener reacts to; base: [sure: surely at rest, runs: last events to come, amb: not known how many]
React == {[o |-> "on", st |-> "none", l |-> "*", n |-> 1, act |-> NoCall]}
  \cup (IF F("react") THEN {[o |-> "on", st |-> s, l |-> "*", n |-> n, act |-> a] : s \in {"run", "done", "error", "cancel"}, n \in 1 .. 3,
          a \in {[o |-> "cancel"], [o |-> "clear"], [o |-> "filter"], [o |-> "train", k |-> 1], [o |-> "cancel1", l |-> "a"], [o |-> "cancel1", l |-> "b"], [o |-> "rm", l |-> "a"], [o |-> "train1", k |-> 1, l |-> "a"], [o |-> "reset"]}} ELSE {})
  \cup (IF F("again") THEN {[o |-> "on", st |-> "alldone", l |-> "*", n |-> 1, act |-> a] : a \in {[o |-> "filter"], [o |-> "reset"]} \cup {[o |-> "train", k |-> k] : k \in 1 .. Len(Lib)}} ELSE {})
Confs == {[o |-> "sched", kind |-> kd, bi |-> b, n |-> n, mt |-> m] : kd \in Kinds, b \in (IF F("bi") THEN {TRUE, FALSE} ELSE {FALSE}), n \in {2, 3}, m \in Modes}
Init == /\ \E c \in Confs : (c.kind = "hmm") = (c.n = 3) /\ st = Fresh(c)
        /\ h = <<>> /\ last = "none" /\ cnt = 0
        /\ base = [sure |-> TRUE, runs |-> 0, amb |-> FALSE]
        /\ on \in React /\ fired = FALSE
\* a listener of the last event uses the model: meanwhile, the caller waits
Again == on.st = "alldone"
Idle == st.alive /\ st.ph["c"] = "no"
Do(op) == /\ Idle /\ (KeepHist => Len(h) < Depth) /\ (~KeepHist => op.o \notin {"train", "train1"} \/ base.runs < Runs)
          /\ st' = Call(st, "c", op) /\ h' = (IF KeepHist THEN Append(h, op) ELSE h) /\ last' = op.o /\ UNCHANGED <<cnt, on, fired>>
          /\ base' = IF op.o \in {"train", "train1"} /\ Trains(st, op)
                     THEN [runs |-> IF Again /\ Trains(st, on.act) /\ ~fired /\ base.runs = 0 THEN 2 ELSE base.runs + 1, sure |-> FALSE,
                           amb |-> base.amb \/ (op.o = "train1" /\ (~base.sure \/ DimOf(op.k) # st.dim))]
                     ELSE IF op.o \in {"into", "load"} THEN [base EXCEPT !.amb = TRUE] ELSE base
Rested == F("stop") \/ base.sure
Free == Idle /\ (~Again \/ base.runs = 0 \/ base.sure)
Sets == 1 .. Len(Lib)
CTrain == Free /\ Rested /\ \E k \in Sets : (Lib[k].bi # st.conf.bi => F("misfit")) /\ Do([o |-> "train", k |-> k])
CTrain1 == Free /\ ~Again /\ (Rested \/ F("join")) /\ \E k \in Sets, l \in Labels : (l \notin LabelsOf(k) \/ Lib[k].bi # st.conf.bi => F("misfit")) /\ Do([o |-> "train1", k |-> k, l |-> l])
CNull == F("misfit") /\ Free /\ Do([o |-> "train", k |-> 0])
CCancel == F("stop") /\ Free /\ Do([o |-> "cancel"])
CCancel1 == F("stop") /\ Free /\ \E l \in Labels : Do([o |-> "cancel1", l |-> l])
CRm == F("stop") /\ Free /\ \E l \in Labels : Do([o |-> "rm", l |-> l])
CClear == F("stop") /\ Free /\ Do([o |-> "clear"])
CFilter == Free /\ Do([o |-> "filter"])
CReset == Free /\ Do([o |-> "reset"])
CPoll == Free /\ Do([o |-> "poll"])
CWait == Free /\ Do([o |-> "wait"])
CWaitDone == Idle /\ ~base.amb /\ ~base.sure /\ Do([o |-> "waitdone", n |-> base.runs])
CMode == F("modes") /\ Idle /\ base.sure /\ \E m \in Modes : m # st.mt /\ Do([o |-> "mt", v |-> m])
CCopy == F("copy") /\ Free /\ \E o \in {"copy", "into", "load", "json"} : Do([o |-> o])
CDel == F("stop") /\ ~KeepHist /\ Free /\ Do([o |-> "del"])
Caller == CTrain \/ CTrain1 \/ CNull \/ CCancel \/ CCancel1 \/ CRm \/ CClear \/ CFilter \/ CReset \/ CPoll \/ CWait \/ CWaitDone \/ CMode \/ CCopy \/ CDel
Ret(w) == /\ st.alive
          /\ \E k \in {"ok", "exc"} : CanReturn(st, w, k) /\ st' = Return(st, w, k)
          /\ UNCHANGED <<h, cnt, on, fired>> /\ last' = "ret"
          /\ base' = IF w = "c" /\ (st.call[w].o \in {"wait", "waitdone", "cancel"} \/ (Trains(st, st.call[w]) /\ ~st.rb)) /\ ~(Again /\ st.call[w].o \in {"wait", "cancel"}) THEN [base EXCEPT !.sure = TRUE] ELSE base
Hidden(s) == st' = s /\ last' = "hidden" /\ UNCHANGED <<h, cnt, on, fired, base>>
Quieten == CanRest(st) /\ Hidden(Rest(st))
Begin1 == \E w \in {"c", "a"} : st.alive /\ CanStart(st, w) /\ Hidden(Start(st, w))
Ev(s, x) == st' = x /\ cnt' = (IF s = on.st /\ ~fired /\ cnt < 4 THEN cnt + 1 ELSE cnt) /\ last' = s /\ UNCHANGED <<h, on, fired, base>>
Running == \E l \in Labels : st.alive /\ CanRun(st, l) /\ st.it[l] < Iter /\ Ev("run", RunEv(st, l))
\* every class of a training ends: well, badly, or because it was asked to
Ending == \E l \in Labels, s \in {"done", "error", "cancel"} : st.alive /\ CanEnd(st, l, s) /\ Ev(s, EndEv(st, l, s))
AllDone == CanAll(st) /\ Ev("alldone", AllEv(st))
Top == st.lis[Len(st.lis)]
Reacts == ~fired /\ st.alive /\ st.lis # <<>> /\ Top[2] = on.st /\ cnt = on.n
\* the listener returns, after it has done what it does
Inside(w) == st.alive /\ st.lis # <<>> /\ st.ph[w] = "no" /\ (w = "a") = (Top[2] = "alldone")
React1 == \E w \in {"w", "a"} : Inside(w) /\ Reacts /\ st' = Call(st, w, on.act) /\ fired' = TRUE /\ last' = "react" /\ UNCHANGED <<h, cnt, on, base>>
Done1 == \E w \in {"w", "a"} : Inside(w) /\ ~Reacts /\ st' = Fin(st, Top[1], Top[2]) /\ last' = "fin" /\ UNCHANGED <<h, cnt, on, fired, base>>
Work == Quieten \/ Begin1 \/ Running \/ Ending \/ AllDone \/ React1 \/ Done1
Finish == /\ KeepHist /\ (Again => base.sure) /\ Len(h) = Depth /\ st.alive /\ st.ph["c"] = "no" /\ last # "end" /\ last' = "end" /\ UNCHANGED <<st, h, cnt, on, fired, base>>
Returns == \E w \in Who : Ret(w)
Next == Finish \/ Caller \/ Returns \/ Work
Ended(l) == \E s \in {"done", "error", "cancel"} : st.alive /\ CanEnd(st, l, s) /\ Ev(s, EndEv(st, l, s))
Spec == Init /\ [][Next]_vars
\* every thread goes on, and no class trains for ever
Fairly == Spec /\ WF_vars(Quieten) /\ WF_vars(AllDone) /\ WF_vars(React1) /\ WF_vars(Done1) /\ SF_vars(Begin1)
               /\ (\A w \in Who : SF_vars(Ret(w))) /\ (\A l \in Labels : SF_vars(Ended(l)))
VarsView == <<st, h, cnt, on, fired, base, IF KeepHist THEN last ELSE "">>
Emit == (last = "end") => PrintT("@S" \o ToJson(<<st.conf>> \o (IF on.st = "none" THEN <<>> ELSE <<on>>) \o h))
Inv == Quiet(st) /\ Sane(st)
\* what a user waits for comes
Returning == \A w \in Who : (st.alive /\ st.ph[w] # "no") ~> (~st.alive \/ st.ph[w] = "no")
Resting == (st.alive /\ st.busy) ~> (~st.alive \/ ~st.busy)
Reporting == \A l \in Labels : (st.alive /\ l \in st.pend) ~> (~st.alive \/ l \notin st.pend)
\* a training that is over has reported each of its classes once
Reported == [][(st.alive /\ st'.alive /\ st.busy /\ ~st'.busy) => st.pend = {} /\ st'.owed = st.owed + 1 /\ st'.kept = st.kept \cup st.dn]_vars
\* only a class of the training at hand is reported, and only once
OnceEach == [][\A l \in Labels : (st.alive /\ st'.alive /\ l \in st.pend /\ l \notin st'.pend) => st.busy /\ l \in st'.dn \cup st'.fl /\ l \notin st.dn \cup st.fl]_vars
=============================================================================
