------------------------------ MODULE JsonDoc ------------------------------
(***************************************************************************)
(* The JSON documents of the library as values, what they must contain, and  *)
(* what reading one has to do.                                                *)
(*                                                                           *)
(* A document is a tagged value [t, v]: "o" object, "a" array, "s" string,     *)
(* "i" integer, "r" real (in decimal), "b" boolean, "z" null; "n" stands for   *)
(* an array too long to be recorded, of which only the length is known.        *)
(*                                                                           *)
(* A document of a type is                                                     *)
(*   Good  (0)  as the library writes it: it has to be accepted                *)
(*   Weak  (1)  as above, with a covariance that may not be invertible          *)
(*   Loose (2)  with members that are absent, or of another scalar type that     *)
(*              converts to the right one: it may be accepted or refused          *)
(*   Bad   (3)  with members that are mistyped, outside their documented limits, *)
(*              or of sizes that do not fit: it has to be refused                 *)
(***************************************************************************)
EXTENDS Settings, Normal, TLC
Null == [t |-> "z", v |-> 0]
I(n) == [t |-> "i", v |-> n]
R(x) == [t |-> "r", v |-> x]
St(x) == [t |-> "s", v |-> x]
B(b) == [t |-> "b", v |-> b]
A(s) == [t |-> "a", v |-> s]
Ob(f) == [t |-> "o", v |-> f]
Good == 0
Weak == 1
Loose == 2
Bad == 3
Mx(s) == IF 3 \in s THEN 3 ELSE IF 2 \in s THEN 2 ELSE IF 1 \in s THEN 1 ELSE 0
\* members; an absent one is null
Mem(d, n) == IF d.t = "o" THEN (IF n \in DOMAIN d.v THEN d.v[n] ELSE Null) ELSE Null
Elems(d) == IF d.t = "a" THEN d.v ELSE <<>>

\* ------------------------------------------------------------------ scalars
\* reals that documents contain are never whole, except these
Half == "0.5"
Huge == "1e20"
Cut(x) == IF FEq(x, Half) THEN 0 ELSE -1
IntV(x, def) == CASE x.t = "i" -> x.v [] x.t = "b" -> (IF x.v THEN 1 ELSE 0) [] x.t = "z" -> def [] x.t = "r" -> Cut(x.v) [] OTHER -> -1
BoolV(x, def) == CASE x.t = "b" -> x.v [] x.t = "i" -> x.v # 0 [] x.t = "r" -> TRUE [] x.t = "z" -> def [] OTHER -> FALSE
NoMax == -1
Within(n, lo, hi) == n >= lo /\ (hi # NoMax => n <= hi)
LInt(x, lo, hi) == CASE x.t = "i" -> IF Within(x.v, lo, hi) THEN Good ELSE Bad
                     [] x.t = "r" -> IF FLe(x.v, "4e9") /\ Within(Cut(x.v), lo, hi) THEN Loose ELSE Bad
                     [] x.t = "b" -> IF Within(IntV(x, 0), lo, hi) THEN Loose ELSE Bad
                     [] x.t = "z" -> Loose
                     [] OTHER -> Bad
RealV(x) == IF x.t = "i" THEN FInt(x.v) ELSE IF x.t = "r" THEN x.v ELSE IF x.t = "b" /\ x.v THEN "1" ELSE "0"
LReal(x, lo, hi) == CASE x.t \in {"i", "r"} -> IF In(RealV(x), lo, hi) THEN Good ELSE Bad
                      [] x.t = "b" -> IF In(RealV(x), lo, hi) THEN Loose ELSE Bad
                      [] x.t = "z" -> Loose
                      [] OTHER -> Bad
LNum(x) == IF x.t \in {"i", "r"} THEN Good ELSE IF x.t \in {"b", "z"} THEN Loose ELSE Bad
LStr(x) == IF x.t = "s" THEN Good ELSE IF x.t \in {"i", "r", "b", "z"} THEN Loose ELSE Bad
LBool(x) == IF x.t = "b" THEN Good ELSE IF x.t \in {"i", "r", "z"} THEN Loose ELSE Bad
LObj(x) == IF x.t = "o" THEN Good ELSE IF x.t = "z" THEN Loose ELSE Bad
\* an array of n elements, each as L tells
AnyLen == -1
LArr(x, n, L(_)) == CASE x.t = "a" -> IF n # AnyLen /\ Len(x.v) # n THEN Bad ELSE Mx({L(x.v[k]) : k \in 1 .. Len(x.v)})
                      [] x.t = "n" -> IF n # AnyLen /\ x.v # n THEN Bad ELSE Good
                      [] x.t = "z" -> IF n \in {0, AnyLen} THEN Loose ELSE Bad
                      [] OTHER -> Bad
\* products of sizes; a size that no document of a test has is "never"
Never == -2
Times(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a < 0 \/ b < 0 \/ a > 2000 \/ b > 2000 THEN Never ELSE a * b
\* one name per column; missing ones are empty
Cols(x, dim) == CASE x.t = "a" -> Mx({LStr(x.v[k]) : k \in 1 .. Len(x.v)} \cup {IF Len(x.v) = dim THEN Good ELSE IF Len(x.v) < dim THEN Loose ELSE Bad})
                  [] x.t = "n" -> IF x.v = dim THEN Good ELSE Bad
                  [] x.t = "z" -> Loose
                  [] OTHER -> Bad

\* ------------------------------------------------------------ shape of data
Bi(d) == BoolV(Mem(d, "bimodal"), FALSE)
Dim(d) == IntV(Mem(d, "dimension"), IF Bi(d) THEN 2 ELSE 1)
Din(d) == IntV(Mem(d, "dimension_input"), IF Bi(d) THEN 1 ELSE 0)
\* an input dimension of zero is possible for a distribution only
Shape(d, lo) == Mx({LBool(Mem(d, "bimodal")), LInt(Mem(d, "dimension"), IF Bi(d) THEN 2 ELSE 1, NoMax),
                    LInt(Mem(d, "dimension_input"), IF Bi(d) THEN lo ELSE 0, IF ~Bi(d) THEN 0 ELSE IF Dim(d) < 1 THEN 0 ELSE Dim(d) - 1)})
SameShape(d, e) == Bi(d) = Bi(e) /\ Dim(d) = Dim(e) /\ Din(d) = Din(e)
Len_(d) == IntV(Mem(d, "length"), 0)
LPhrase(d) ==
  IF LObj(d) = Bad THEN Bad ELSE
  Mx({LObj(d), Shape(d, 1), Cols(Mem(d, "column_names"), Dim(d)), LStr(Mem(d, "label")), LInt(Mem(d, "length"), 0, NoMax)}
     \cup (IF Bi(d) THEN {LArr(Mem(d, "data_input"), Times(Din(d), Len_(d)), LNum), LArr(Mem(d, "data_output"), Times(Dim(d) - Din(d), Len_(d)), LNum)}
           ELSE {LArr(Mem(d, "data"), Times(Dim(d), Len_(d)), LNum)}))
Distinct(d, n, V(_)) == \A i, j \in 1 .. Len(Elems(d)) : i < j => V(Mem(Elems(d)[i], n)) # V(Mem(Elems(d)[j], n))
Idx(x) == IntV(x, 0)
\* labels by their text: whatever is not a string is loose anyhow
Lab(x) == IF x.t = "s" THEN x.v ELSE IF x.t = "z" THEN "" ELSE ToString(x.v)
LIdx(x) == LInt(x, -2000000000, 2000000000)
LSet(d) ==
  IF LObj(d) = Bad THEN Bad ELSE
  LET ph(p) == Mx({LPhrase(p), LIdx(Mem(p, "index")), IF SameShape(p, d) THEN Good ELSE Bad})
  IN Mx({LObj(d), Shape(d, 1), Cols(Mem(d, "column_names"), Dim(d)), LArr(Mem(d, "phrases"), AnyLen, ph),
         IF Distinct(Mem(d, "phrases"), "index", Idx) THEN Good ELSE Bad})

\* ------------------------------------------------------------ distributions
\* modes: 0 is full, 1 is diagonal
Full_(d) == IntV(Mem(d, "covariance_mode"), 0) = 0
CovSize(d, n) == IF Full_(d) THEN Times(n, n) ELSE n
Invertible(d) ==
  LET c == Mem(d, "covariance") n == Dim(d)
      x == [k \in 1 .. Len(Elems(c)) |-> RealV(c.v[k])]
  IN IF ~Full_(d) THEN \A k \in 1 .. Len(x) : FLt("1e-4", x[k]) /\ FLt(x[k], "1e6")
     ELSE /\ \A i, j \in 1 .. n : FEq(x[(i - 1) * n + j], x[(j - 1) * n + i]) /\ FLt(x[(i - 1) * n + j], "1e6")
          /\ \A k \in 1 .. n : FLt("1e-4", FDet(Block(x, "full", n, 1, k, 1, k), k))
LGauss(d) ==
  IF LObj(d) = Bad THEN Bad ELSE
  LET l == Mx({LObj(d), Shape(d, 0), LInt(Mem(d, "covariance_mode"), 0, 1), LArr(Mem(d, "mean"), Dim(d), LNum),
         LArr(Mem(d, "covariance"), CovSize(d, Dim(d)), LNum), LArr(Mem(d, "inverse_covariance"), CovSize(d, Dim(d)), LNum),
         LArr(Mem(d, "inverse_covariance_input"), IF Bi(d) THEN CovSize(d, Din(d)) ELSE 0, LNum),
         LNum(Mem(d, "covariance_determinant")), LNum(Mem(d, "covariance_determinant_input")),
         IF Mem(d, "output_covariance").t = "z" THEN Loose ELSE LArr(Mem(d, "output_covariance"), IF Bi(d) THEN CovSize(d, Dim(d) - Din(d)) ELSE 0, LNum)})
  IN IF l = Good THEN (IF Invertible(d) THEN Good ELSE Weak) ELSE l

\* ----------------------------------------------------------------- settings
LShared(d) ==
  IF LObj(d) = Bad THEN Bad ELSE
  Mx({LObj(d), Shape(d, 1), Cols(Mem(d, "column_names"), Dim(d)), LInt(Mem(d, "em_algorithm_min_iterations"), 1, NoMax),
      LInt(Mem(d, "em_algorithm_max_iterations"), 0, NoMax), LReal(Mem(d, "em_algorithm_percent_chg"), "0", DMax), LInt(Mem(d, "likelihood_window"), 1, NoMax)})
\* the names under which the settings of Settings!Fields are written
JName(f) == CASE f = "rel" -> "relative_regularization" [] f = "abs" -> "absolute_regularization" [] f = "cov" -> "covariance_mode" [] f = "trans" -> "transition_mode"
              [] f = "reg" -> "regression_estimator" [] f = "hier" -> "hierarchical" [] f = "iters" -> "max_iterations" [] f = "thr" -> "relative_distance_threshold" [] OTHER -> f
LField(f, x) == CASE f \in {"rel", "abs", "thr"} -> LReal(x, Lo(f), Hi(f))
                  [] f = "hier" -> LBool(x)
                  [] f \in {"cov", "trans"} -> LInt(x, 0, 1)
                  [] f = "reg" -> LInt(x, 0, 2)
                  [] OTHER -> LInt(x, 1, NoMax)
LParams(k, d) == IF LObj(d) = Bad THEN Bad ELSE Mx({LObj(d)} \cup {LField(Fields(k)[i], Mem(d, JName(Fields(k)[i]))) : i \in 1 .. Len(Fields(k))})
LConfig(k, d) ==
  IF LObj(d) = Bad THEN Bad ELSE
  LET c == Mem(d, "class_parameters") IN
  Mx({LObj(d), LParams(k, Mem(d, "default_parameters")), LInt(Mem(d, "multithreading"), 0, 2), LInt(Mem(d, "multiClass_regression_estimator"), 0, 1),
      IF c.t = "z" THEN Good ELSE LObj(c)}
     \cup (IF c.t = "o" THEN {LParams(k, c.v[l]) : l \in DOMAIN c.v} ELSE {}))

\* ------------------------------------------------------------------- models
PInt(d, n) == IntV(Mem(Mem(d, "parameters"), n), 0)
LGmmClass(sh, d) ==
  IF LObj(d) = Bad THEN Bad ELSE
  LET g == PInt(d, "gaussians")
      comp(x) == Mx({LGauss(x), IF SameShape(x, sh) /\ IntV(Mem(x, "covariance_mode"), 0) = PInt(d, "covariance_mode") THEN Good ELSE Bad})
  IN Mx({LObj(d), LStr(Mem(d, "label")), LParams("gmm", Mem(d, "parameters")), LArr(Mem(d, "mixture_coeffs"), g, LNum), LArr(Mem(d, "components"), g, comp)})
LHmmClass(sh, d) ==
  IF LObj(d) = Bad THEN Bad ELSE
  LET s == PInt(d, "states")
      erg == PInt(d, "transition_mode") = 0
      state(x) == Mx({LGmmClass(sh, x), IF PInt(x, "gaussians") = PInt(d, "gaussians") /\ PInt(x, "covariance_mode") = PInt(d, "covariance_mode") THEN Good ELSE Bad})
  IN Mx({LObj(d), LStr(Mem(d, "label")), LParams("hmm", Mem(d, "parameters")), IF erg THEN LArr(Mem(d, "prior"), s, LNum) ELSE Good,
         LArr(Mem(d, "transition"), IF erg THEN Times(s, s) ELSE Times(2, s), LNum),
         IF Mem(d, "exitProbabilities").t = "z" THEN Loose ELSE LArr(Mem(d, "exitProbabilities"), s, LNum), LArr(Mem(d, "states"), s, state)})
LModel(k, d) ==
  IF LObj(d) = Bad THEN Bad ELSE
  LET sh == Mem(d, "shared_parameters") ms == Mem(d, "models") n == Len(Elems(ms))
      cls(x) == IF k = "gmm" THEN LGmmClass(sh, x) ELSE LHmmClass(sh, x)
      row(x) == LArr(x, n, LNum)
  IN Mx({LObj(d), LShared(sh), LConfig(k, Mem(d, "configuration")), LArr(ms, AnyLen, cls), IF Distinct(ms, "label", Lab) THEN Good ELSE Bad}
        \cup (IF k = "gmm" THEN {} ELSE {LArr(Mem(d, "prior"), n, LNum), LArr(Mem(d, "exit_transition"), n, LNum), LArr(Mem(d, "transition"), n, row)}))

Verdict(ty, d) == CASE ty = "phrase" -> LPhrase(d) [] ty = "set" -> LSet(d) [] ty = "gauss" -> LGauss(d) [] ty = "shared" -> LShared(d)
  [] ty = "pgmm" -> LParams("gmm", d) [] ty = "phmm" -> LParams("hmm", d) [] ty = "pkm" -> LParams("kmeans", d)
  [] ty = "cgmm" -> LConfig("gmm", d) [] ty = "chmm" -> LConfig("hmm", d) [] ty = "ckm" -> LConfig("kmeans", d)
  [] ty = "gmm" -> LModel("gmm", d) [] ty = "hmm" -> LModel("hmm", d)

\* ---------------------------------------------------------------- agreement
(* What is read is what the document says: every member of the document that  *)
(* has the type it should have is found again in the document the object then  *)
(* writes.  Phrases take the column names of their set; numbers that follow      *)
(* from the covariance may be computed anew.  Phrases and classes may come back   *)
(* in another order (that of their indices, or labels).                            *)
Derived == {"inverse_covariance", "inverse_covariance_input", "covariance_determinant", "covariance_determinant_input", "output_covariance"}
Numeric == {"i", "r"}
Perms(n) == {p \in [1 .. n -> 1 .. n] : \A i, j \in 1 .. n : i # j => p[i] # p[j]}
RECURSIVE Says(_, _, _)
Says(skip, d, a) ==
  CASE d.t = "o" /\ a.t = "o" -> \A n \in DOMAIN d.v \cap DOMAIN a.v : n \in skip \/ Says(IF n = "phrases" THEN skip \cup {"column_names"} ELSE skip, d.v[n], a.v[n])
    [] d.t = "a" /\ a.t = "a" ->
         IF Len(d.v) > 0 /\ d.v[1].t = "o"
         THEN Len(d.v) = Len(a.v) /\ (\/ \A k \in 1 .. Len(d.v) : Says(skip, d.v[k], a.v[k])
                                     \/ (Len(d.v) <= 4 /\ \E p \in Perms(Len(d.v)) : \A k \in 1 .. Len(d.v) : Says(skip, d.v[k], a.v[p[k]])))
         ELSE Len(d.v) <= Len(a.v) /\ \A k \in 1 .. Len(d.v) : Says(skip, d.v[k], a.v[k])
    [] d.t = "i" /\ a.t \in Numeric -> FClose(FInt(d.v), RealV(a), "1e-6", "0")
    [] d.t = "r" /\ a.t = "r" -> FClose(d.v, a.v, "1e-6", "0")
    [] d.t = "s" /\ a.t = "s" -> d.v = a.v
    [] d.t = "b" /\ a.t = "b" -> d.v = a.v
    [] OTHER -> TRUE
(* The outcome r of reading d, a good document after n changes: by constructor (c) and into an object (f). *)
\* refused: with a message, and the object is as it was
Refused(r) == r.c = "no" /\ r.f = "no" /\ r.cw /\ r.fw /\ r.same
\* accepted: the object is well formed and says what the document says
Accepted(ty, d, n, r) == /\ r.c = "ok" /\ r.f = "ok" /\ r.agree /\ Verdict(ty, r.after) \in {Good, Weak}
                      /\ Says(IF n = 0 THEN {} ELSE Derived, d, r.after)
ReadOK(ty, d, n, r) == LET v == Verdict(ty, d) IN
  IF v = Good THEN Accepted(ty, d, n, r) ELSE IF v = Bad THEN Refused(r) ELSE Refused(r) \/ Accepted(ty, d, n, r)
=============================================================================
