---------------------------- MODULE AttributeMC ----------------------------
EXTENDS Attribute, TLC, Json
CONSTANTS Types, KeepHist, Depth
VARIABLES st, h, last
vars == <<st, h, last>>
Init == st = InitSt /\ h = <<>> /\ last = "none"
Do(op) == LET x == Apply(st, op) IN
  /\ (KeepHist => Len(h) < Depth)
  /\ st' = x.st /\ h' = (IF KeepHist THEN Append(h, op) ELSE h) /\ last' = op.o
Finish == KeepHist /\ Len(h) = Depth /\ last # "end" /\ last' = "end" /\ UNCHANGED <<st, h>>
Pool(t) ==
  CASE Elem(t) = "uint" -> {"0", "1", "2", "5", "4294967295"} [] Elem(t) = "int" -> {"-2147483648", "-1", "0", "2", "5", "2147483647"}
    [] Elem(t) = "long" -> {"-5", "0", "2", "5", "4294967296"} [] Elem(t) = "uchar" -> {"0", "1", "2", "5", "255"}
    [] Elem(t) = "char" -> {"-128", "-1", "0", "2", "5", "127"}
    [] Elem(t) \in {"float", "double"} -> {"-1", "0", "0.5", "0.1", "2", "5", "NaN", "Infinity", "-Infinity"}
    [] Elem(t) = "bool" -> {"0", "1"} [] OTHER -> {"", "a", "b"}
Finite(t) == {v \in Pool(t) : ~Bounded(t) \/ FFinite(v)}
VPool(t) == IF IsVec(t) THEN {<<>>} \cup {<<a>> : a \in Pool(t)} \cup {<<a, b>> : a \in Finite(t), b \in Pool(t)} ELSE Pool(t)
A == {k \in Slots : st.a[k].alive}
T(k) == st.a[k].t
New == \E k \in Slots, t \in Types : \E v \in VPool(t), lo \in Finite(t) \cup {Lowest(t)}, hi \in Finite(t) \cup {Highest(t)}, n \in {0, 0, 1, 2} :
         ~st.a[k].alive /\ (n = 0 \/ IsVec(t)) /\ Do([o |-> "new", k |-> k, t |-> t, v |-> v, lo |-> lo, hi |-> hi, size |-> n])
Del == \E k \in A : Do([o |-> "del", k |-> k])
Copy == \E k \in Slots \ A, j \in A : Do([o |-> "copy", k |-> k, j |-> j])
Assign == \E k \in A, j \in A : T(k) = T(j) /\ Do([o |-> "assign", k |-> k, j |-> j])
Set == \E k \in A, s \in {TRUE, FALSE} : \E v \in VPool(T(k)) : Do([o |-> "set", k |-> k, v |-> v, silent |-> s])
SetLo == \E k \in A : Bounded(T(k)) /\ \E v \in Finite(T(k)) : Do([o |-> "lo", k |-> k, lo |-> v])
SetHi == \E k \in A : Bounded(T(k)) /\ \E v \in Finite(T(k)) : Do([o |-> "hi", k |-> k, hi |-> v])
SetLims == \E k \in A : Bounded(T(k)) /\ \E v \in Finite(T(k)), w \in Finite(T(k)) : Do([o |-> "lims", k |-> k, lo |-> v, hi |-> w])
NoLims == \E k \in A : Bounded(T(k)) /\ Do([o |-> "nolims", k |-> k])
Listen == \E k \in A, w \in Observers \cup {0} : Do([o |-> "listen", k |-> k, w |-> w])
At == \E k \in A, i \in 0 .. 2 : IsVec(T(k)) /\ Do([o |-> "at", k |-> k, i |-> i])
Resize == \E k \in A, n \in 0 .. 3 : IsVec(T(k)) /\ Do([o |-> "resize", k |-> k, n |-> n])
Next == Finish \/ New \/ Del \/ Copy \/ Assign \/ Set \/ SetLo \/ SetHi \/ SetLims \/ NoLims \/ Listen \/ At \/ Resize
Spec == Init /\ [][Next]_vars
VarsView == <<st, h, IF KeepHist THEN last ELSE "">>
Emit == (last = "end") => PrintT("@S" \o ToJson(h))
Inv == InRange(st)
=============================================================================
