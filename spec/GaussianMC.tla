----------------------------- MODULE GaussianMC -----------------------------
EXTENDS Gaussian, TLC, Json
CONSTANTS Families, MaxDim, KeepHist, Depth
VARIABLES st, h, last
vars == <<st, h, last>>
Init == st = InitSt /\ h = <<>> /\ last = "none"
Do(op) == LET x == Apply(st, op) IN
  /\ (KeepHist => Len(h) < Depth)
  /\ st' = x.st /\ h' = (IF KeepHist THEN Append(h, op) ELSE h) /\ last' = op.o
Finish == KeepHist /\ Len(h) = Depth /\ last # "end" /\ last' = "end" /\ UNCHANGED <<st, h>>
F(f) == f \in Families
Live == {k \in Slots : st.g[k].alive}
Free == {k \in Slots : ~st.g[k].alive}
Modes == {"full", "diag"}
Make == \E k \in Free, b \in {TRUE, FALSE}, d \in 0 .. MaxDim, m \in Modes : \E i \in (IF b THEN {0, 1, d - 1, d} ELSE {0}) \ {-1} : Do([o |-> "new", s |-> k, b |-> b, d |-> d, i |-> i, m |-> m])
Del == \E k \in Live : Do([o |-> "del", s |-> k])
Copy == \E k \in Free, u \in Live, o \in {"copy", "jsonnew"} : (o = "jsonnew" => F("json")) /\ Do([o |-> o, s |-> k, u |-> u])
Assign == \E k \in Live, u \in Live, o \in {"assign", "json"} : (o = "json" => F("json")) /\ Do([o |-> o, s |-> k, u |-> u])
Dim == F("shape") /\ \E k \in Live, d \in 0 .. MaxDim : Do([o |-> "dim", s |-> k, d |-> d])
Din == F("shape") /\ \E k \in Live, d \in 0 .. MaxDim : Do([o |-> "din", s |-> k, d |-> d])
Mode == F("shape") /\ \E k \in Live, m \in Modes \cup {"bad"} : st.g[k].known /\ Decided(st.g[k].cov, st.g[k].mode, st.g[k].dim) /\ Do([o |-> "mode", s |-> k, m |-> m])
Num(i) == <<"0.5", "1.25", "-2", "0", "3", "-0.75", "0.125", "10">>[1 + (i % 8)]
Pos(i) == <<"1", "0.25", "4", "0.5", "2", "0.0625", "100">>[1 + (i % 7)]
MeanOf(n, k) == [i \in 1 .. n |-> Num(3 * i + k)]
\* positive definite: a diagonal plus a rank-one term; k = 0: a variance of zero
CovOf(n, m, k) ==
  IF m = "diag" THEN [i \in 1 .. n |-> IF k = 0 /\ i = n THEN "0" ELSE Pos(i + k)]
  ELSE [q \in 1 .. n * n |-> LET i == 1 + ((q - 1) \div n) j == 1 + ((q - 1) % n) IN
          IF k = 0 THEN (IF i = j /\ i < n THEN "1" ELSE "0")
          ELSE FAdd(IF i = j THEN Pos(2 * i + k) ELSE "0", FMul(FMul(Num(i * k + 1), Num(j * k + 1)), "0.5"))]
SetP == \E k \in Live, v \in 0 .. 5 : LET g == st.g[k] IN Do([o |-> "set", s |-> k, mean |-> MeanOf(g.dim, v), cov |-> CovOf(g.dim, g.mode, v)])
Upd == \E k \in Live : st.g[k].known /\ Decided(st.g[k].cov, st.g[k].mode, st.g[k].dim) /\ Do([o |-> "upd", s |-> k])
Regu == \E k \in Live, v \in {1, 2} : st.g[k].known /\ Do([o |-> "regu", s |-> k, v |-> [i \in 1 .. st.g[k].dim |-> Pos(i + v)]])
Ellipses == {<<"1", "-2", "2", "1", "0">>, <<"0", "0.5", "3", "0.5", "0.7">>, <<"0", "0", "2", "2", "1">>, <<"3", "1", "4", "1", "1.5707964">>, <<"0", "1", "5", "0.25", "-1.2">>}
FromE == F("ellipse") /\ \E k \in Live, e \in Ellipses : \E a \in 1 .. st.g[k].dim + 1, c \in 1 .. st.g[k].dim + 1 : LET g == st.g[k] IN
  /\ a # c /\ g.known
  /\ (InRange(g, a, c) => LET x == FromEllipse(g, a, c, e) IN Decided(x.cov, x.mode, x.dim))
  /\ Do([o |-> "frome", s |-> k, a |-> a, c |-> c, e |-> e])
ToE == F("ellipse") /\ \E k \in Live : \E a \in 1 .. st.g[k].dim + 1, c \in 1 .. st.g[k].dim + 1 :
  a # c /\ st.g[k].known /\ (InRange(st.g[k], a, c) => \A i \in {1, 3} : FLe("0", Cov2(st.g[k], a, c)[i])) /\ Do([o |-> "toe", s |-> k, a |-> a, c |-> c])
C2E == F("ellipse") /\ \E v \in {<<"1", "0", "1">>, <<"2", "0", "1">>, <<"1", "0", "2">>, <<"1", "0.5", "1">>, <<"0.1", "0", "0.1">>, <<"0.7", "-0.3", "0.9">>, <<"0.3", "1e-9", "0.3">>, <<"4", "2", "1">>} : Do([o |-> "cov2e", v |-> v])
Obs(n, k) == [i \in 1 .. n |-> IF k = 4 THEN "1000" ELSE Num(i * k + 2)]
Eval == F("eval") /\ \E k \in Live, o \in {"lik", "lin", "lbi", "reg"}, x \in 0 .. 4 : LET g == st.g[k] IN
  /\ (o = "reg" => (g.known /\ g.inv = g.cov) \/ ~g.bi) /\ (g.inv # <<>> => Regular(g.inv, g.mode, g.dim))
  /\ Do([o |-> o, s |-> k, x |-> Obs(g.dim, x)])
Next == Finish \/ Make \/ Del \/ Copy \/ Assign \/ Dim \/ Din \/ Mode \/ SetP \/ SetP \/ Upd \/ Upd \/ Upd \/ Regu \/ FromE \/ ToE \/ C2E \/ Eval \/ Eval \/ Eval
Spec == Init /\ [][Next]_vars
VarsView == <<st, h, IF KeepHist THEN last ELSE "">>
Emit == (last = "end") => PrintT("@S" \o ToJson(h))
\* bounds the covariances reached by repeated regularisation
Small == \A k \in Slots : \A i \in 1 .. Len(st.g[k].cov) : FLt(st.g[k].cov[i], "8")
Inv == \A k \in Slots : ShapeOK(st.g[k])
\* changing the covariance mode keeps the variances
KeepsVariances == [][last' = "mode" => \A k \in Slots : st.g[k].alive /\ st.g[k].known => Diag(st.g[k].cov, st.g[k].mode, st.g[k].dim) = Diag(st'.g[k].cov, st'.g[k].mode, st'.g[k].dim)]_vars
=============================================================================
