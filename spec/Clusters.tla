------------------------------ MODULE Clusters ------------------------------
(* k-means models as objects: settings, training, copying, filtering.          *)
EXTENDS Settings, Kmeans, FiniteSets, Json, IOUtils
CONSTANTS Slots, Learn(_, _, _)   \* set, settings, how it starts -> centres
Lib == ndJsonDeserialize(IOEnv.SETS)
DeadK == [alive |-> FALSE, d |-> <<>>, mode |-> "random", dim |-> 0, cs |-> <<>>]
InitSt == [k \in Slots |-> DeadK]
Count(d) == FFloor(d[1])
Apply(st, op) ==
  LET m == st[op.s]
      Put(x) == [st EXCEPT ![op.s] = x]
      Ok(x, v) == [st |-> x, r |-> [k |-> "ok", v |-> v]]
      No == [st |-> st, r |-> [k |-> "exc", v |-> 0]]
  IN CASE op.o = "new" -> IF Valid("kmeans", 1, op.k) THEN Ok(Put([DeadK EXCEPT !.alive = TRUE, !.d = [Dflt("kmeans") EXCEPT ![1] = op.k], !.dim = 1]), 0) ELSE No
       [] op.o = "del" -> Ok(Put(DeadK), 0)
       [] op.o \in {"copy", "assign"} -> Ok(Put(st[op.u]), 0)
       [] op.o = "dset" -> IF Valid("kmeans", op.f, op.v) THEN Ok(Put([m EXCEPT !.d = PSet(@, "kmeans", op.f, op.v)]), 0) ELSE No
       [] op.o = "mode" -> Ok(Put([m EXCEPT !.mode = op.m]), 0)
       [] op.o = "reset" -> Ok(st, 0)
       \* nothing happens without data
       [] op.o = "train" -> IF op.k = 0 \/ Lib[op.k].phr = <<>> THEN Ok(st, 0)
                            ELSE Ok(Put([m EXCEPT !.dim = Lib[op.k].dim, !.cs = Learn(op.k, m.d, m.mode)]), 0)
       [] op.o = "filter" -> IF m.cs = <<>> \/ Len(op.x) # m.dim THEN No ELSE Ok(st, m.cs)
KOK(m) == m.alive => Count(m.d) >= 1 /\ m.dim >= 1
=============================================================================
