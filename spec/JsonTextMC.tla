----------------------------- MODULE JsonTextMC -----------------------------
EXTENDS JsonText, TLC
CONSTANTS Slots, Families, KeepHist, Depth, Heavy
VARIABLES st, h, last
vars == <<st, h, last>>
F(f) == f \in Families
Lib == ndJsonDeserialize(IOEnv.SETS)
Scalars == {Null, [t |-> "a", v |-> <<>>], [t |-> "o", v |-> <<>>], [t |-> "b", v |-> TRUE], [t |-> "b", v |-> FALSE]}
  \cup {[t |-> "i", v |-> x] : x \in {"0", "-1", "7", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "-9223372036854775808"}}
  \cup {[t |-> "u", v |-> x] : x \in {"0", "4294967295", "4294967296", "9223372036854775808", "18446744073709551615"}}
Reals == {[t |-> "r", v |-> x] : x \in {"0.10000000000000001", "-0", "5", "1e+300", "-2.5000000000000002e-08", "4.9406564584124654e-324", "1.7976931348623157e+308", "0.30000000000000004", "123456789012345680", "-1e+20", "9007199254740993.5"}}
Rep(c, n) == [i \in 1 .. n |-> c]
Bytes == {<<>>, <<97>>, <<98>>, <<0>>, <<97, 0, 98>>, <<34, 92, 47>>, <<8, 9, 10, 12, 13>>, <<1, 31, 127>>, <<195, 169, 226, 130, 172, 240, 159, 152, 128>>, <<32>>, <<47, 47, 97>>, Rep(98, 70), Rep(7, 12), <<255, 254>>, <<92>>, <<92, 117, 48>>}
Some == IF KeepHist THEN Scalars \cup Reals \cup {[t |-> "s", v |-> x] : x \in Bytes} ELSE {Null, [t |-> "a", v |-> <<>>], [t |-> "o", v |-> <<>>], [t |-> "i", v |-> "7"], [t |-> "s", v |-> <<97>>]}
Keys == IF KeepHist THEN {<<>>, <<97>>, <<98>>, <<97, 0, 98>>, <<97, 97>>, <<34>>, <<195, 169>>, <<0>>, <<200>>} ELSE {<<>>, <<97>>}
Init == st = [s \in Slots |-> Null] /\ h = <<>> /\ last = "none"
Do(op) == /\ last # "end" /\ (KeepHist => Len(h) < Depth)
          /\ LET a == Apply(st, op) IN st' = a.st
          /\ h' = (IF KeepHist THEN Append(h, op) ELSE h) /\ last' = op.o
Light(s) == Weight(st[s]) <= Heavy
SetIt == \E s \in Slots, v \in Some : Do([o |-> "set", s |-> s, v |-> v])
Copy == \E s, k \in Slots : s # k /\ (Do([o |-> "copy", s |-> s, k |-> k]) \/ Do([o |-> "swap", s |-> s, k |-> k]))
Append1 == \E s, k \in Slots : s # k /\ Light(s) /\ Light(k) /\ Do([o |-> "append", s |-> s, k |-> k])
Index == \E s, k \in Slots, i \in 0 .. 4 : s # k /\ Light(s) /\ Light(k) /\ (Do([o |-> "setidx", s |-> s, i |-> i, k |-> k]) \/ Do([o |-> "getidx", s |-> s, i |-> i, k |-> k]))
Key == \E s, k \in Slots, x \in Keys : s # k /\ Light(s) /\ Light(k) /\ (Do([o |-> "setkey", s |-> s, key |-> x, k |-> k]) \/ Do([o |-> "getkey", s |-> s, key |-> x, k |-> k]) \/ Do([o |-> "rmkey", s |-> s, key |-> x, k |-> k]))
\* a place that was skipped when an array grew is null for most operations, and not there for removeIndex and resize
Remove == \E s \in Slots, i \in 0 .. 3 : (st[s].t = "a" => \A j \in 1 .. Len(st[s].v) : st[s].v[j].t # "z") /\ Do([o |-> "rmidx", s |-> s, i |-> i])
Resize == \E s \in Slots, n \in 0 .. 4 : (st[s].t = "a" /\ n > 0 /\ n < Len(st[s].v) => st[s].v[n].t # "z") /\ Do([o |-> "resize", s |-> s, n |-> n])
Clear == \E s \in Slots : Do([o |-> "clear", s |-> s])
Ask == \/ \E s \in Slots, x \in Keys : Do([o |-> "member", s |-> s, key |-> x])
       \/ \E s \in Slots : Do([o |-> "size", s |-> s])
       \/ \E s, k \in Slots : Do([o |-> "equal", s |-> s, k |-> k])
Write == \E s, k \in Slots, w \in {"fast", "styled", "stream", "dense", "indent"} : Do([o |-> "write", s |-> s, k |-> k, w |-> w])
Comment == F("comment") /\ \E s \in Slots, p \in 0 .. 2, c \in {<<47, 47, 97>>, <<47, 42, 97, 42, 47>>} : Do([o |-> "comment", s |-> s, p |-> p, c |-> c])
Read == F("read") /\ \E s \in Slots, x \in 1 .. Len(Lib), m \in {"string", "range", "stream", "builder", "notes", "bnotes"} : Do([o |-> "read", s |-> s, m |-> m, text |-> Lib[x].t])
Finish == KeepHist /\ Len(h) = Depth /\ last # "end" /\ last' = "end" /\ UNCHANGED <<st, h>>
Next == SetIt \/ Copy \/ Append1 \/ Index \/ Key \/ Remove \/ Resize \/ Clear \/ Ask \/ Write \/ Comment \/ Read \/ Finish
Spec == Init /\ [][Next]_vars
VarsView == st
Small == \A s \in Slots : Weight(st[s]) <= Heavy
Emit == (last = "end") => PrintT("@S" \o ToJson(h))
\* keys of an object are in order, and appear once
RECURSIVE Sorted(_)
Sorted(x) == CASE x.t = "a" -> \A i \in 1 .. Len(x.v) : Sorted(x.v[i])
               [] x.t = "o" -> (\A i \in 1 .. Len(x.v) - 1 : KeyLt(x.v[i][1], x.v[i + 1][1])) /\ (\A i \in 1 .. Len(x.v) : Sorted(x.v[i][2]))
               [] OTHER -> TRUE
\* a plain way of writing, of which reading is the inverse
RECURSIVE Plain(_)
RECURSIVE Join(_, _, _)
Join(x, i, acc) == IF i > Len(x.v) THEN acc ELSE Join(x, i + 1, acc \o (IF i > 1 THEN <<44>> ELSE <<>>) \o (IF x.t = "o" THEN <<34>> \o x.v[i][1] \o <<34, 58>> \o Plain(x.v[i][2]) ELSE Plain(x.v[i])))
Plain(x) == CASE x.t = "z" -> <<110, 117, 108, 108>> [] x.t = "i" -> <<55>> [] x.t = "s" -> <<34>> \o x.v \o <<34>>
              [] x.t = "a" -> <<91>> \o Join(x, 1, <<>>) \o <<93>> [] x.t = "o" -> <<123>> \o Join(x, 1, <<>>) \o <<125>>
Inverse(x) == LET t == Plain(x) IN
  /\ LET p == Parse(t) IN p.q = "good" /\ Equal(p.v, x)
  \* no beginning of a document that is not a bare number is a document
  /\ x.t \in {"a", "o", "s"} => \A n \in 0 .. Len(t) - 1 : Parse(SubSeq(t, 1, n)).q = "bad"
Inv == \A s \in Slots : Sorted(st[s]) /\ Inverse(st[s])
=============================================================================
