------------------------------ MODULE Settings ------------------------------
(* The settings of models as values: shared parameters, parameters of one     *)
(* class, configurations.  Used by Config.tla and by the specifications of     *)
(* the models themselves.  All numbers are strings.                           *)
EXTENDS Integers, Sequences, FiniteSets, XM
\* ------------------------------------------------------------ shared parameters
DeadS == [alive |-> FALSE, bi |-> FALSE, dim |-> 0, din |-> 0, cols |-> <<>>, emin |-> "0", emax |-> "0", pct |-> "0", win |-> "0"]
FreshS == [DeadS EXCEPT !.alive = TRUE, !.dim = 1, !.cols = <<"">>, !.emin = "10", !.emax = "0", !.pct = "0.01", !.win = "1"]
Resize(c, d) == [k \in 1 .. d |-> IF k <= Len(c) THEN c[k] ELSE ""]
NoChange == [ok |-> FALSE]
Yes(v) == [ok |-> TRUE, v |-> v]
UMax == "4294967295"
DMax == "1.7976931348623157E308"
FMaxV == "3.4028234663852886E38"
In(v, lo, hi) == FLe(lo, v) /\ FLe(v, hi)
SetDimS(s, d) == [s EXCEPT !.dim = d, !.cols = Resize(@, d), !.din = IF ~s.bi THEN 0 ELSE IF @ > d - 1 THEN d - 1 ELSE IF @ < 1 THEN 1 ELSE @]
SSet(s, f, v) ==
  CASE f = "bi" -> Yes(IF v THEN SetDimS([s EXCEPT !.bi = TRUE], IF s.dim < 2 THEN 2 ELSE s.dim) ELSE [s EXCEPT !.bi = FALSE, !.din = 0])
    [] f = "dim" -> IF v < (IF s.bi THEN 2 ELSE 1) THEN NoChange ELSE Yes(SetDimS(s, v))
    [] f = "din" -> IF s.bi THEN (IF v \in 1 .. s.dim - 1 THEN Yes([s EXCEPT !.din = v]) ELSE NoChange)
                    ELSE (IF v = 0 THEN Yes(s) ELSE NoChange)
    [] f = "cols" -> IF Len(v) = s.dim THEN Yes([s EXCEPT !.cols = v]) ELSE NoChange
    [] f = "emin" -> IF In(v, "1", UMax) THEN Yes([s EXCEPT !.emin = v]) ELSE NoChange
    [] f = "emax" -> IF In(v, "0", UMax) THEN Yes([s EXCEPT !.emax = v]) ELSE NoChange
    [] f = "pct" -> IF In(v, "0", DMax) THEN Yes([s EXCEPT !.pct = v]) ELSE NoChange
    [] f = "win" -> IF In(v, "1", UMax) THEN Yes([s EXCEPT !.win = v]) ELSE NoChange

\* --------------------------------------------------- parameters of one class
Kinds == {"gmm", "hmm", "kmeans"}
Fields(k) == CASE k = "gmm" -> <<"gaussians", "rel", "abs", "cov">>
               [] k = "hmm" -> <<"states", "gaussians", "rel", "abs", "cov", "trans", "reg", "hier">>
               [] k = "kmeans" -> <<"clusters", "iters", "thr">>
Default(k, f) == CASE f = "gaussians" -> IF k = "gmm" THEN "10" ELSE "1"
  [] f = "states" -> "10" [] f = "rel" -> "0.01" [] f = "abs" -> "0.001" [] f = "cov" -> "0" [] f = "trans" -> "1"
  [] f = "reg" -> "0" [] f = "hier" -> "1" [] f = "clusters" -> "1" [] f = "iters" -> "50" [] f = "thr" -> F32("1e-20")
Lo(f) == CASE f \in {"gaussians", "states", "clusters", "iters"} -> "1" [] f \in {"rel", "abs"} -> "1e-20" [] OTHER -> "0"
Hi(f) == CASE f \in {"gaussians", "states", "clusters", "iters"} -> UMax [] f \in {"rel", "abs"} -> DMax
           [] f \in {"cov", "trans", "hier"} -> "1" [] f = "reg" -> "2" [] f = "thr" -> FMaxV
StoreF(f, v) == IF f = "thr" THEN F32(v) ELSE v
Dflt(k) == [i \in 1 .. Len(Fields(k)) |-> Default(k, Fields(k)[i])]

DeadC == [alive |-> FALSE, k |-> "gmm", d |-> <<>>, mt |-> 0, est |-> 0, cls |-> [l \in {} |-> <<>>]]
FreshC(k) == [alive |-> TRUE, k |-> k, d |-> Dflt(k), mt |-> 1, est |-> 0, cls |-> [l \in {} |-> <<>>]]
Own(c, l, v) == [x \in DOMAIN c.cls \cup {l} |-> IF x = l THEN v ELSE c.cls[x]]
\* what class l is trained with
Effective(c, l) == IF l \in DOMAIN c.cls THEN c.cls[l] ELSE c.d
\* asking for the parameters of a class makes them its own
Touched(c, l) == [c EXCEPT !.cls = Own(c, l, Effective(c, l))]

PSet(v, k, i, x) == [v EXCEPT ![i] = StoreF(Fields(k)[i], x)]
Valid(k, i, x) == In(StoreF(Fields(k)[i], x), Lo(Fields(k)[i]), Hi(Fields(k)[i]))

ParamsOK(k, p) == Len(p) = Len(Fields(k)) /\ \A i \in 1 .. Len(p) : In(p[i], Lo(Fields(k)[i]), Hi(Fields(k)[i]))
=============================================================================
