------------------------------ MODULE Attribute ------------------------------
(***************************************************************************)
(* A bounded setting: a value with limits, owned by an object whose         *)
(* observer is called on every accepted, not silent, change.                *)
(* Numbers are decimal strings, vectors are sequences of them.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, XM
CONSTANTS Slots, Observers

Scalars == {"uint", "int", "long", "uchar", "char", "float", "double"}
IsVec(t) == t \in {"vfloat", "vint", "vstr"}
Elem(t) == CASE t = "vfloat" -> "float" [] t = "vint" -> "int" [] t = "vstr" -> "string" [] OTHER -> t
Bounded(t) == Elem(t) \in Scalars
Lowest(t) == CASE Elem(t) = "uint" -> "0" [] Elem(t) = "int" -> "-2147483648" [] Elem(t) = "long" -> "-9223372036854775808"
  [] Elem(t) = "uchar" -> "0" [] Elem(t) = "char" -> "-128" [] Elem(t) = "float" -> "-3.4028234663852886E38"
  [] Elem(t) = "double" -> "-1.7976931348623157E308" [] OTHER -> ""
Highest(t) == CASE Elem(t) = "uint" -> "4294967295" [] Elem(t) = "int" -> "2147483647" [] Elem(t) = "long" -> "9223372036854775807"
  [] Elem(t) = "uchar" -> "255" [] Elem(t) = "char" -> "127" [] Elem(t) = "float" -> "3.4028234663852886E38"
  [] Elem(t) = "double" -> "1.7976931348623157E308" [] OTHER -> ""
Store(t, v) == IF Elem(t) = "float" THEN F32(v) ELSE v
ZeroOf(t) == IF t = "vstr" THEN "" ELSE "0"

Dead == [alive |-> FALSE, t |-> "int", v |-> "0", lo |-> "0", hi |-> "0", size |-> 0, ch |-> FALSE, own |-> 0, bad |-> FALSE]
InitSt == [a |-> [k \in Slots |-> Dead]]
Within(t, lo, hi, v) == ~Bounded(t) \/ (FLe(lo, v) /\ FLe(v, hi))
AllWithin(x) == IF IsVec(x.t) THEN \A i \in 1 .. Len(x.v) : Within(x.t, x.lo, x.hi, x.v[i]) ELSE Within(x.t, x.lo, x.hi, x.v)
Fits(x, v) == IF IsVec(x.t) THEN (x.size = 0 \/ Len(v) = x.size) /\ \A i \in 1 .. Len(v) : Within(x.t, x.lo, x.hi, Store(x.t, v[i]))
              ELSE Within(x.t, x.lo, x.hi, Store(x.t, v))
StoreAll(t, v) == IF IsVec(t) THEN [i \in 1 .. Len(v) |-> Store(t, v[i])] ELSE Store(t, v)

Proj(st) == [k \in Slots |-> LET x == st.a[k] IN
  IF x.alive THEN [alive |-> TRUE, t |-> x.t, v |-> x.v, ch |-> x.ch, n |-> IF IsVec(x.t) THEN Len(x.v) ELSE 0] ELSE [alive |-> FALSE]]

Res(k, v, calls) == [k |-> k, v |-> v, calls |-> calls]
Ok(st) == [st |-> st, r |-> Res("ok", 0, <<>>)]
No(st) == [st |-> st, r |-> Res("exc", 0, <<>>)]
\* bad marks a value that its owner left outside limits it changed afterwards
Mark(x) == [x EXCEPT !.bad = ~AllWithin(x)]

Apply(st, op) ==
  CASE op.o = "new" -> LET x == [Dead EXCEPT !.alive = TRUE, !.t = op.t, !.lo = StoreAll(Elem(op.t), op.lo), !.hi = StoreAll(Elem(op.t), op.hi), !.size = op.size]
                       IN IF Fits(x, op.v) THEN Ok([st EXCEPT !.a[op.k] = [x EXCEPT !.v = StoreAll(op.t, op.v)]]) ELSE No(st)
    [] op.o = "del" -> Ok([st EXCEPT !.a[op.k] = Dead])
    [] op.o = "copy" -> Ok([st EXCEPT !.a[op.k] = [st.a[op.j] EXCEPT !.own = 0, !.ch = FALSE]])
    [] op.o = "assign" -> IF op.k = op.j THEN Ok(st)
                          ELSE Ok([st EXCEPT !.a[op.k] = [st.a[op.j] EXCEPT !.own = st.a[op.k].own, !.ch = FALSE]])
    [] op.o = "set" -> LET x == st.a[op.k] IN
         IF ~Fits(x, op.v) THEN No(st)
         ELSE LET y == [x EXCEPT !.v = StoreAll(x.t, op.v), !.ch = TRUE, !.bad = FALSE] IN
              [st |-> [st EXCEPT !.a[op.k] = y],
               r |-> Res("ok", 0, IF op.silent \/ x.own = 0 THEN <<>> ELSE <<[own |-> x.own, k |-> op.k, v |-> y.v]>>)]
    [] op.o = "lo" -> LET x == st.a[op.k] IN Ok([st EXCEPT !.a[op.k] = Mark([x EXCEPT !.lo = Store(Elem(x.t), op.lo)])])
    [] op.o = "hi" -> LET x == st.a[op.k] IN Ok([st EXCEPT !.a[op.k] = Mark([x EXCEPT !.hi = Store(Elem(x.t), op.hi)])])
    [] op.o = "lims" -> LET x == st.a[op.k] IN Ok([st EXCEPT !.a[op.k] = Mark([x EXCEPT !.lo = Store(Elem(x.t), op.lo), !.hi = Store(Elem(x.t), op.hi)])])
    [] op.o = "nolims" -> LET x == st.a[op.k] IN Ok([st EXCEPT !.a[op.k] = Mark([x EXCEPT !.lo = Lowest(x.t), !.hi = Highest(x.t)])])
    [] op.o = "listen" -> Ok([st EXCEPT !.a[op.k].own = op.w])
    [] op.o = "at" -> LET x == st.a[op.k] IN IF op.i < Len(x.v) THEN [st |-> st, r |-> Res("ok", x.v[op.i + 1], <<>>)] ELSE No(st)
    [] op.o = "resize" -> LET x == st.a[op.k] IN Ok([st EXCEPT !.a[op.k] = Mark([x EXCEPT !.size = op.n,
                              !.v = [i \in 1 .. op.n |-> IF i <= Len(x.v) THEN x.v[i] ELSE ZeroOf(x.t)]])])

InRange(st) == \A k \in Slots : LET x == st.a[k] IN x.alive => (x.bad \/ AllWithin(x))
=============================================================================
