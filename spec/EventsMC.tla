------------------------------ MODULE EventsMC ------------------------------
EXTENDS Events, TLC, Json
CONSTANTS KeepHist, Depth, Order
OrderO == [i \in 1 .. Cardinality(Subs) |-> i]
VARIABLES st, h, last
vars == <<st, h, last>>
Init == st = InitSt /\ h = <<>> /\ last = "none"
Do(op) == LET x == Apply(st, op) IN
  /\ (KeepHist => Len(h) < Depth)
  /\ st' = x /\ h' = (IF KeepHist THEN Append(h, op) ELSE h) /\ last' = op.o
Finish == KeepHist /\ Len(h) = Depth /\ last # "end" /\ last' = "end" /\ UNCHANGED <<st, h>>
Add == \E g \in Gens, s \in Subs, m \in {1, 2} : last # "end" /\ Do([o |-> "add", g |-> g, s |-> s, m |-> m])
Rm == \E g \in Gens, s \in Subs : last # "end" /\ Do([o |-> "rm", g |-> g, s |-> s])
RmAll == \E g \in Gens : last # "end" /\ Do([o |-> "clear", g |-> g])
Todo == \E s \in Subs, u \in Subs, a \in {"none", "remove", "add", "clear"} : last # "end" /\ Do([o |-> "todo", s |-> s, a |-> [a |-> a, s |-> u]])
Copy == \E g \in Gens, q \in Gens : g # q /\ Do([o |-> "copy", g |-> g, q |-> q])
New == \E g \in Gens : last # "end" /\ Do([o |-> "new", g |-> g])
Notify == \E g \in Gens, v \in {1, 7} :
   LET cs == Dispatch(st, g, v, Order) IN
   LET x == Notification(st, g, v, cs).st op == [o |-> "notify", g |-> g, v |-> v] IN
  /\ (KeepHist => Len(h) < Depth)
  /\ st' = x /\ h' = (IF KeepHist THEN Append(h, op) ELSE h) /\ last' = op.o
Next == Finish \/ Add \/ Add \/ Rm \/ RmAll \/ Todo \/ Copy \/ New \/ Notify \/ Notify
Spec == Init /\ [][Next]_vars
VarsView == <<st, h, IF KeepHist THEN last ELSE "">>
Emit == (last = "end") => PrintT("@S" \o ToJson(h))
\* whatever the order, dispatching to those still registered is a correct notification
Inv == \A g \in Gens : Notification(st, g, 1, Dispatch(st, g, 1, Order)).ok
                       /\ Notification(st, g, 1, Dispatch(st, g, 1, [i \in 1 .. Len(Order) |-> Order[Len(Order) + 1 - i]])).ok
=============================================================================
