------------------------------ MODULE JsonMC ------------------------------
(* Documents for the library to read: valid ones of every type, all that     *)
(* differ from them by one change (exhaustively), and some by several.        *)
EXTENDS JsonDoc, TLC, Json
CONSTANTS Types, KindsUsed, Changes, KeepHist, Depth
VARIABLES ty, base, doc, n, h, last
vars == <<ty, base, doc, n, h, last>>

\* ------------------------------------------------------------ valid documents
Ints(s) == A([k \in 1 .. Len(s) |-> I(s[k])])
Reals(s) == A([k \in 1 .. Len(s) |-> R(s[k])])
Strs(s) == A([k \in 1 .. Len(s) |-> St(s[k])])
Shp(bi, dim, din) == [bimodal |-> B(bi), dimension |-> I(dim), dimension_input |-> I(din)]
Phr(bi, dim, din, cols, lab, len, x) == Ob(Shp(bi, dim, din) @@ [column_names |-> Strs(cols), label |-> St(lab), length |-> I(len)] @@
  (IF bi THEN [data_input |-> Reals(SubSeq(x, 1, din * len)), data_output |-> Reals(SubSeq(x, din * len + 1, dim * len))] ELSE [data |-> Reals(x)]))
Indexed(p, i) == Ob(p.v @@ [index |-> I(i)])
Tset(bi, dim, din, cols, ps) == Ob(Shp(bi, dim, din) @@ [column_names |-> Strs(cols), phrases |-> A(ps)])
Gau(bi, dim, din, mode, mean, cov) ==
  Ob(Shp(bi, dim, din) @@ [covariance_mode |-> I(IF mode = "full" THEN 0 ELSE 1), mean |-> Reals(mean), covariance |-> Reals(cov),
      inverse_covariance |-> Reals(Inverse(cov, mode, dim)), covariance_determinant |-> R(Det(cov, mode, dim)),
      inverse_covariance_input |-> Reals(IF ~bi THEN <<>> ELSE Inverse(IF mode = "full" THEN Block(cov, mode, dim, 1, din, 1, din) ELSE Sub(cov, 1, din), mode, din)),
      covariance_determinant_input |-> R(IF ~bi THEN "0" ELSE FDet(Block(cov, mode, dim, 1, din, 1, din), din)),
      output_covariance |-> Reals(IF ~bi THEN <<>> ELSE CondCov(cov, mode, dim, din))])
Shr(bi, dim, din, cols, emin, emax, win) == Ob(Shp(bi, dim, din) @@ [column_names |-> Strs(cols), em_algorithm_min_iterations |-> I(emin),
  em_algorithm_max_iterations |-> I(emax), em_algorithm_percent_chg |-> R("0.0125"), likelihood_window |-> I(win)])
PGmm(g, cov) == Ob([gaussians |-> I(g), relative_regularization |-> R("0.015"), absolute_regularization |-> R("0.0025"), covariance_mode |-> I(cov)])
PHmm(s, g, cov, tr, reg, hier) == Ob([states |-> I(s), transition_mode |-> I(tr), regression_estimator |-> I(reg), hierarchical |-> B(hier)] @@ PGmm(g, cov).v)
PKm(c) == Ob([clusters |-> I(c), max_iterations |-> I(31), relative_distance_threshold |-> R("0.0078125")])
Cfg(p, mt, est, cls) == Ob([default_parameters |-> p, multithreading |-> I(mt), multiClass_regression_estimator |-> I(est)] @@
                           (IF DOMAIN cls = {} THEN [x \in {} |-> 0] ELSE [class_parameters |-> Ob(cls)]))
GCls(lab, p, coeffs, comps) == Ob([label |-> St(lab), parameters |-> p, mixture_coeffs |-> Reals(coeffs), components |-> A(comps)])
HCls(lab, p, prior, tr, ex, states) == Ob([label |-> St(lab), parameters |-> p, transition |-> Reals(tr), exitProbabilities |-> Reals(ex), states |-> A(states)] @@
                                         (IF Len(prior) = 0 THEN [x \in {} |-> 0] ELSE [prior |-> Reals(prior)]))
Gm(sh, c, ms) == [shared_parameters |-> sh, configuration |-> c, models |-> A(ms)]
None == [x \in {} |-> 0]
C1(v) == <<v>>
C2(a, b, c) == <<a, b, b, c>>
D2(a, b) == <<a, b>>
G1(m, v) == Gau(FALSE, 1, 0, "full", <<m>>, <<v>>)
G2(m, x, v) == Gau(TRUE, 2, 1, "full", <<m, x>>, C2(v, "0.2", "0.8"))
GD(m, x, y) == Gau(TRUE, 3, 1, "diag", <<m, x, y>>, <<"0.7", "0.9", "1.3">>)
Bases == Eager([
  phrase |-> <<Phr(FALSE, 1, 0, <<"x">>, "a", 2, <<"1.25", "-2.5">>), Phr(FALSE, 2, 0, <<"u", "v">>, "", 1, <<"0.25", "3.5">>),
               Phr(TRUE, 3, 1, <<"", "q", "r">>, "a \"b\" \\", 2, <<"1.5", "2.5", "3.5", "4.5", "5.5", "6.5">>), Phr(FALSE, 2, 0, <<"", "">>, "b", 0, <<>>)>>,
  set |-> <<Tset(FALSE, 1, 0, <<"c">>, <<Indexed(Phr(FALSE, 1, 0, <<"c">>, "a", 2, <<"1.5", "2.5">>), -1), Indexed(Phr(FALSE, 1, 0, <<"c">>, "b", 1, <<"3.5">>), 4)>>),
            Tset(TRUE, 2, 1, <<"i", "o">>, <<Indexed(Phr(TRUE, 2, 1, <<"i", "o">>, "a", 1, <<"1.5", "2.5">>), 0), Indexed(Phr(TRUE, 2, 1, <<"i", "o">>, "a", 0, <<>>), 1)>>),
            Tset(TRUE, 3, 2, <<"", "", "">>, <<>>)>>,
  gauss |-> <<Gau(FALSE, 2, 0, "full", <<"1.5", "-0.75">>, C2("1.25", "0.25", "0.9")), GD("0.1", "0.2", "0.3"), Gau(TRUE, 2, 1, "full", <<"0.5", "2.5">>, C2("2.25", "-0.5", "1.75")), G1("3.5", "0.25"),
              Gau(TRUE, 3, 2, "full", <<"1.5", "0.75", "0.2">>, <<"1.25", "0.25", "0.1", "0.25", "0.9", "-0.2", "0.1", "-0.2", "1.1">>)>>,
  shared |-> <<Shr(FALSE, 2, 0, <<"x", "y">>, 3, 7, 4), Shr(TRUE, 3, 2, <<"", "b", "c">>, 1, 0, 1)>>,
  pgmm |-> <<PGmm(3, 0), PGmm(1, 1)>>, phmm |-> <<PHmm(3, 2, 1, 0, 1, TRUE), PHmm(1, 1, 0, 1, 2, FALSE)>>, pkm |-> <<PKm(3), PKm(1)>>,
  cgmm |-> <<Cfg(PGmm(3, 0), 2, 1, [a |-> PGmm(2, 1)]), Cfg(PGmm(1, 0), 1, 0, None)>>,
  chmm |-> <<Cfg(PHmm(3, 2, 1, 0, 1, TRUE), 0, 1, [a |-> PHmm(4, 1, 0, 1, 0, FALSE)]), Cfg(PHmm(5, 1, 0, 1, 0, TRUE), 2, 0, None)>>,
  ckm |-> <<Cfg(PKm(2), 0, 0, [a |-> PKm(4)]), Cfg(PKm(5), 2, 0, None)>>,
  gmm |-> <<Ob(Gm(Shr(FALSE, 1, 0, <<"x">>, 3, 7, 2), Cfg(PGmm(2, 0), 0, 0, None), <<GCls("a", PGmm(2, 0), <<"0.4", "0.6">>, <<G1("0.5", "0.3"), G1("2.5", "0.7")>>)>>)),
            Ob(Gm(Shr(TRUE, 2, 1, <<"", "z">>, 2, 0, 3), Cfg(PGmm(1, 0), 1, 1, [b |-> PGmm(1, 0)]), <<GCls("a", PGmm(1, 0), <<"1.001">>, <<G2("0.5", "1.5", "0.6")>>), GCls("b", PGmm(1, 0), <<"0.999">>, <<G2("1.5", "0.5", "0.9")>>)>>)),
            Ob(Gm(Shr(TRUE, 3, 1, <<"", "", "">>, 10, 0, 1), Cfg(PGmm(1, 1), 0, 1, None), <<GCls("c d", PGmm(1, 1), <<"0.999">>, <<GD("0.5", "1.5", "2.5")>>)>>)),
            Ob(Gm(Shr(FALSE, 2, 0, <<"", "">>, 10, 0, 1), Cfg(PGmm(4, 1), 2, 0, None), <<>>))>>,
  hmm |-> <<Ob(Gm(Shr(FALSE, 1, 0, <<"x">>, 3, 7, 2), Cfg(PHmm(2, 2, 0, 0, 0, FALSE), 0, 0, None),
                 <<HCls("a", PHmm(2, 2, 0, 0, 0, FALSE), <<"0.3", "0.7">>, <<"0.1", "0.9", "0.25", "0.75">>, <<"0.05", "0.2">>,
                        <<GCls("", PGmm(2, 0), <<"0.4", "0.6">>, <<G1("0.5", "0.3"), G1("2.5", "0.7")>>), GCls("", PGmm(2, 0), <<"0.2", "0.8">>, <<G1("4.5", "0.3"), G1("3.5", "0.7")>>)>>)>>)
               @@ [prior |-> Reals(<<"0.999">>), exit_transition |-> Reals(<<"0.15">>), transition |-> A(<<Reals(<<"0.75">>)>>)]),
            Ob(Gm(Shr(TRUE, 2, 1, <<"", "z">>, 2, 0, 3), Cfg(PHmm(2, 1, 0, 1, 1, TRUE), 1, 1, [b |-> PHmm(1, 1, 0, 1, 1, TRUE)]),
                 <<HCls("a", PHmm(2, 1, 0, 1, 1, TRUE), <<>>, <<"0.6", "0.4", "0.9", "0.1">>, <<"0.01", "0.2">>, <<GCls("", PGmm(1, 0), <<"0.999">>, <<G2("0.5", "1.5", "0.6")>>), GCls("", PGmm(1, 0), <<"0.999">>, <<G2("0.7", "1.2", "0.6")>>)>>),
                   HCls("b", PHmm(1, 1, 0, 1, 1, TRUE), <<>>, <<"0.9", "0.1">>, <<"0.25">>, <<GCls("", PGmm(1, 0), <<"0.999">>, <<G2("3.5", "1.5", "0.6")>>)>>)>>)
               @@ [prior |-> Reals(<<"0.45", "0.55">>), exit_transition |-> Reals(<<"0.15", "0.35">>), transition |-> A(<<Reals(<<"0.75", "0.25">>), Reals(<<"0.35", "0.65">>)>>)]),
            Ob(Gm(Shr(FALSE, 2, 0, <<"", "">>, 10, 0, 1), Cfg(PHmm(4, 1, 1, 1, 2, TRUE), 2, 0, None), <<>>) @@ [prior |-> A(<<>>), exit_transition |-> A(<<>>), transition |-> A(<<>>)])>>])

\* -------------------------------------------------------------------- changes
\* places in a document: from the root, by member or by position
RECURSIVE Paths(_)
Paths(d) == {<<>>} \cup
  (IF d.t = "o" THEN UNION {{<<[m |-> k, i |-> 0]>> \o p : p \in Paths(d.v[k])} : k \in DOMAIN d.v}
   ELSE IF d.t = "a" THEN UNION {{<<[m |-> "", i |-> k]>> \o p : p \in Paths(d.v[k])} : k \in 1 .. Len(d.v)} ELSE {})
RECURSIVE At_(_, _)
At_(d, p) == IF p = <<>> THEN d ELSE At_(IF p[1].m # "" THEN d.v[p[1].m] ELSE d.v[p[1].i], Tail(p))
\* what a change puts in the place of x
Made(k, x) == CASE k = "null" -> Null [] k = "true" -> B(TRUE) [] k = "zero" -> I(0) [] k = "one" -> I(1) [] k = "two" -> I(2) [] k = "neg" -> I(-1)
  [] k = "big" -> I(5003) [] k = "half" -> R(Half) [] k = "huge" -> R(Huge) [] k = "str" -> St("?") [] k = "text" -> St("") [] k = "arr" -> A(<<>>) [] k = "arr1" -> A(<<I(1)>>)
  [] k = "arrs" -> A(<<St("x")>>) [] k = "obj" -> Ob(None) [] k = "pop" -> A(SubSeq(x.v, 1, Len(x.v) - 1)) [] k = "push" -> A(Append(x.v, x.v[Len(x.v)])) [] k = "inc" -> I(x.v + 1)
  [] k = "dec" -> I(x.v - 1) [] k = "not" -> B(~x.v)
Fits(k, x) == CASE k \in {"pop", "push"} -> x.t = "a" /\ Len(x.v) > 0 [] k \in {"inc", "dec"} -> x.t = "i" [] k = "not" -> x.t = "b" [] OTHER -> TRUE
RECURSIVE Put(_, _, _)
\* x instead of what is at p, or (del) nothing
Put(d, p, x) == IF p = <<>> THEN x
  ELSE IF p[1].m # "" THEN Ob([d.v EXCEPT ![p[1].m] = Put(@, Tail(p), x)]) ELSE A([d.v EXCEPT ![p[1].i] = Put(@, Tail(p), x)])
RECURSIVE Del(_, _)
Del(d, p) == IF Len(p) = 1 THEN Ob([k \in DOMAIN d.v \ {p[1].m} |-> d.v[k]])
  ELSE IF p[1].m # "" THEN Ob([d.v EXCEPT ![p[1].m] = Del(@, Tail(p))]) ELSE A([d.v EXCEPT ![p[1].i] = Del(@, Tail(p))])
\* a member (of an array of any length, one of the first two and the last) is changed
Near(d, p) == \A j \in 1 .. Len(p) : p[j].m # "" \/ p[j].i <= 2

Op == [o |-> "read", ty |-> ty, doc |-> doc, n |-> n, tgt |-> Bases[ty][1 + (base % Len(Bases[ty]))]]
Init == /\ ty \in Types /\ \E k \in 1 .. Len(Bases[ty]) : base = k /\ doc = Bases[ty][k]
        /\ n = 0 /\ h = <<>> /\ last = "base"
Change == /\ n < Changes /\ last # "end"
          /\ \E p \in Paths(doc) : Near(doc, p) /\
             LET x == At_(doc, p) IN
             \/ \E k \in KindsUsed : Fits(k, x) /\ doc' = Put(doc, p, Made(k, x)) /\ last' = k
             \/ Len(p) > 0 /\ p[Len(p)].m # "" /\ doc' = Del(doc, p) /\ last' = "del"
          /\ n' = n + 1 /\ UNCHANGED <<ty, base, h>>
\* (generation) the document is read, and another one begun
Read == /\ KeepHist /\ Len(h) < Depth /\ n > 0 /\ last # "end" /\ h' = Append(h, Op)
        /\ \E k \in 1 .. Len(Bases[ty]) : base' = k /\ doc' = Bases[ty][k]
        /\ n' = 0 /\ last' = "base" /\ UNCHANGED ty
Finish == KeepHist /\ Len(h) = Depth /\ last # "end" /\ last' = "end" /\ UNCHANGED <<ty, base, doc, n, h>>
Next == Finish \/ Change \/ Read
Spec == Init /\ [][Next]_vars
Emit == (last = "end") => PrintT("@S" \o ToJson(h))
EmitAll == PrintT("@S" \o ToJson(<<Op>>))
View == <<ty, base, doc, n, h, IF last = "end" THEN 1 ELSE 0>>
\* the documents the changes start from are good ones, and one change can make any kind
BasesGood == n = 0 => Verdict(ty, doc) = Good
=============================================================================
