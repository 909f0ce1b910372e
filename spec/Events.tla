------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* Event generators and their subscribers.  A subscriber may, while it is    *)
(* being notified, unsubscribe itself or another, or subscribe another.      *)
(* The order in which the subscribers are called is not specified: a          *)
(* notification is judged by the recorded sequence of calls.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Gens, Subs
\* reg[g]: subscriber -> method (0: not registered); todo[s]: what s does when called
InitSt == [alive |-> [g \in Gens |-> TRUE], reg |-> [g \in Gens |-> [s \in Subs |-> 0]], todo |-> [s \in Subs |-> [a |-> "none", s |-> 1]]]
Registered(st, g) == {s \in Subs : st.reg[g][s] # 0}
\* what the calls can tell about a registration: nothing but notifications
Act(st, g, a) == CASE a.a = "none" -> st
  [] a.a = "remove" -> [st EXCEPT !.reg[g][a.s] = 0]
  [] a.a = "add" -> [st EXCEPT !.reg[g][a.s] = IF @ = 0 THEN 1 ELSE @]
  [] a.a = "clear" -> [st EXCEPT !.reg[g] = [s \in Subs |-> 0]]
\* a notification is an initial set and a sequence of calls [s, m, v]
RECURSIVE Calls(_, _, _, _, _)
Calls(st, g, v, done, cs) ==
  IF cs = <<>> THEN [ok |-> TRUE, st |-> st, done |-> done]
  ELSE LET c == Head(cs) IN
       IF c.s \in Subs /\ c.s \notin done /\ st.reg[g][c.s] = c.m /\ c.v = v
       THEN Calls(Act(st, g, st.todo[c.s]), g, v, done \cup {c.s}, Tail(cs))
       ELSE [ok |-> FALSE, st |-> st, done |-> done]
\* nobody who stayed registered throughout was left out
RECURSIVE Throughout(_, _, _)
Throughout(st, g, cs) == IF cs = <<>> THEN Registered(st, g)
  ELSE Registered(st, g) \cap Throughout(Act(st, g, st.todo[Head(cs).s]), g, Tail(cs))
Notification(st, g, v, cs) ==
  LET x == Calls(st, g, v, {}, cs) IN
  [ok |-> x.ok /\ Throughout(st, g, cs) \subseteq x.done, st |-> x.st]
\* one possible behaviour: subscribers called in the order of their numbers
RECURSIVE Dispatch(_, _, _, _)
Dispatch(st, g, v, order) == IF order = <<>> THEN <<>>
  ELSE LET s == Head(order) IN
       IF st.reg[g][s] = 0 THEN Dispatch(st, g, v, Tail(order))
       ELSE <<[s |-> s, m |-> st.reg[g][s], v |-> v]>> \o Dispatch(Act(st, g, st.todo[s]), g, v, Tail(order))

Apply(st, op) ==
  CASE op.o = "add" -> [st EXCEPT !.reg[op.g][op.s] = IF @ = 0 THEN op.m ELSE @]
    [] op.o = "rm" -> [st EXCEPT !.reg[op.g][op.s] = 0]
    [] op.o = "clear" -> [st EXCEPT !.reg[op.g] = [s \in Subs |-> 0]]
    [] op.o = "todo" -> [st EXCEPT !.todo[op.s] = op.a]
    [] op.o = "copy" -> [st EXCEPT !.reg[op.g] = st.reg[op.q]]
    [] op.o = "new" -> [st EXCEPT !.reg[op.g] = [s \in Subs |-> 0]]
=============================================================================
