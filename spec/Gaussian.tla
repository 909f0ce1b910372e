------------------------------ MODULE Gaussian ------------------------------
(***************************************************************************)
(* Gaussian distributions: parameters, their inverses as of the last update, *)
(* densities, conditionals, ellipses, copies and JSON.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Normal
CONSTANTS Slots

\* inv: the covariance that was inverted last, <<>> if there is none or it failed
\* known: the covariance values are determined (not after a change of dimension)
DeadG == [alive |-> FALSE, bi |-> FALSE, dim |-> 0, din |-> 0, mode |-> "full", mean |-> <<>>, cov |-> <<>>, inv |-> <<>>, known |-> FALSE, oc |-> FALSE]
New(bi, d, di, m) == [alive |-> TRUE, bi |-> bi, dim |-> d, din |-> di, mode |-> m, mean |-> Zeros(d), cov |-> Zeros(Size(m, d)), inv |-> <<>>, known |-> TRUE, oc |-> FALSE]
InitSt == [g |-> [k \in Slots |-> DeadG]]
Void == [k |-> "ok", v |-> 0]
Exc == [k |-> "exc", v |-> 0]
Ok(st) == [st |-> st, r |-> Void]
Val(st, v) == [st |-> st, r |-> [k |-> "ok", v |-> v]]
No(st) == [st |-> st, r |-> Exc]

\* a row of zeros: certainly singular
Singular(c, mode, n) ==
  IF mode = "diag" THEN \E i \in 1 .. n : FLe(c[i], "0") ELSE \E i \in 1 .. n : \A j \in 1 .. n : FEq(c[(i - 1) * n + j], "0")
Leading(c, mode, n, k) == FDet(Block(c, mode, n, 1, k, 1, k), k)
\* well away from singular, so that every pivot is accepted
Regular(c, mode, n) == \A k \in 1 .. n : FLt("1e-4", Leading(c, mode, n, k)) /\ (k > 1 => FLt("1e-4", FDiv(Leading(c, mode, n, k), Leading(c, mode, n, k - 1))))
Decided(c, mode, n) == Singular(c, mode, n) \/ Regular(c, mode, n)
\* after inverting the current covariance
Updated(g) == IF Singular(g.cov, g.mode, g.dim) THEN [g EXCEPT !.inv = <<>>, !.oc = FALSE] ELSE [g EXCEPT !.inv = g.cov, !.oc = g.bi]
ToDiag(g) == IF g.mode = "diag" THEN g ELSE [g EXCEPT !.mode = "diag", !.cov = IF g.known THEN Diag(g.cov, "full", g.dim) ELSE Zeros(g.dim)]
ToFull(g) == IF g.mode = "full" THEN g ELSE [g EXCEPT !.mode = "full", !.cov = IF g.known THEN Full(g.cov, "diag", g.dim) ELSE Zeros(g.dim * g.dim)]
Resized(g) == [g EXCEPT !.mean = [i \in 1 .. g.dim |-> IF i <= Len(@) THEN @[i] ELSE "0"], !.cov = Zeros(Size(g.mode, g.dim)), !.inv = <<>>, !.known = FALSE, !.oc = FALSE]
SetDim(g, d) == IF d = g.dim THEN [g EXCEPT !.inv = <<>>, !.oc = FALSE]
                ELSE Resized([g EXCEPT !.dim = d, !.din = IF g.bi /\ @ > d - 1 THEN d - 1 ELSE @])
At(c, i, v) == [c EXCEPT ![i] = v]
Eig(w) == FDiv(FMul(w, w), "5.991")
FromEllipse(g, a, b, e) ==
  LET x == F32(e[1]) y == F32(e[2]) w == Eig(F32(e[3])) hh == Eig(F32(e[4])) t == F32(e[5])
      df == FSub(w, hh) cc == FMul(FCos(t), FCos(t))
      vb == FMul(df, FMul(FSin(t), FCos(t))) vc == FSub(w, FMul(df, cc)) va == FAdd(hh, FMul(df, cc))
      n == g.dim
      g1 == [g EXCEPT !.mean = At(At(@, a, x), b, y)]
  IN IF g.mode = "full" THEN [g1 EXCEPT !.cov = At(At(At(At(@, (a - 1) * n + a, va), (a - 1) * n + b, vb), (b - 1) * n + a, vb), (b - 1) * n + b, vc)]
     ELSE [g1 EXCEPT !.cov = At(At(@, a, va), b, vc)]
\* the 2x2 covariance an ellipse stands for
EllipseCov(e) == LET w == Eig(e[3]) hh == Eig(e[4]) t == e[5]
                     s2 == FMul(FSin(t), FSin(t)) c2 == FMul(FCos(t), FCos(t))
                 IN <<FAdd(FMul(w, c2), FMul(hh, s2)), FMul(FSub(w, hh), FMul(FSin(t), FCos(t))), FAdd(FMul(w, s2), FMul(hh, c2))>>
Cov2(g, a, b) == <<Cell(g.cov, g.mode, g.dim, a, a), Cell(g.cov, g.mode, g.dim, a, b), Cell(g.cov, g.mode, g.dim, b, b)>>
InRange(g, a, b) == a \in 1 .. g.dim /\ b \in 1 .. g.dim

FullInv(g) == Full(g.inv, g.mode, g.dim)
InBlock(g) == Block(g.inv, g.mode, g.dim, 1, g.din, 1, g.din)
Lik(g, x) == Density(x, g.mean, FullInv(g), g.dim)
LikIn(g, x) == IF g.din = 0 THEN "1" ELSE Density(x, Sub(g.mean, 1, g.din), InBlock(g), g.din)
Reg(g, x) == IF g.din = 0 THEN g.mean ELSE CondMean(x, g.mean, g.inv, g.mode, g.dim, g.din)

Apply(st, op) ==
  LET g == IF op.o = "cov2e" THEN DeadG ELSE st.g[op.s]
      Put(x) == [st EXCEPT !.g[op.s] = x]
  IN
  CASE op.o = "new" -> IF op.d < (IF op.b THEN 2 ELSE 1) \/ op.i < 0 \/ op.i > (IF op.b THEN op.d - 1 ELSE 0) THEN No(st) ELSE Ok(Put(New(op.b, op.d, op.i, op.m)))
    [] op.o = "del" -> Ok(Put(DeadG))
    [] op.o \in {"copy", "assign", "json", "jsonnew"} -> Ok(Put(st.g[op.u]))
    [] op.o = "dim" -> IF op.d < (IF g.bi THEN 2 ELSE 1) THEN No(st) ELSE Ok(Put(SetDim(g, op.d)))
    [] op.o = "din" -> IF op.d > (IF g.bi THEN g.dim - 1 ELSE 0) THEN No(st) ELSE Ok(Put([g EXCEPT !.din = op.d, !.inv = <<>>, !.oc = FALSE]))
    [] op.o = "mode" -> IF op.m = "bad" THEN No(st) ELSE
         LET x == IF op.m = "diag" THEN ToDiag(g) ELSE ToFull(g) IN Ok(Put(IF g.known THEN Updated(x) ELSE x))
    [] op.o = "set" -> Ok(Put([g EXCEPT !.mean = op.mean, !.cov = op.cov, !.known = TRUE]))
    [] op.o = "upd" -> LET x == Updated(g) IN IF x.inv = <<>> THEN No(Put(x)) ELSE Ok(Put(x))
    [] op.o = "regu" -> Ok(Put([g EXCEPT !.cov = IF g.mode = "full" THEN [k \in 1 .. Len(@) |-> IF (k - 1) \div g.dim = (k - 1) % g.dim THEN FAdd(@[k], op.v[1 + ((k - 1) % g.dim)]) ELSE @[k]]
                                                 ELSE [k \in 1 .. Len(@) |-> FAdd(@[k], op.v[k])]]))
    [] op.o = "frome" -> IF ~InRange(g, op.a, op.c) THEN No(st) ELSE
         LET x == Updated(FromEllipse(g, op.a, op.c, op.e)) IN IF x.inv = <<>> THEN No(Put(x)) ELSE Ok(Put(x))
    [] op.o = "toe" -> IF ~InRange(g, op.a, op.c) THEN No(st) ELSE Val(st, [x |-> g.mean[op.a], y |-> g.mean[op.c], cov |-> Cov2(g, op.a, op.c)])
    [] op.o = "lik" -> IF g.inv = <<>> THEN No(st) ELSE Val(st, Lik(g, op.x))
    [] op.o = "lin" -> IF ~g.bi \/ g.inv = <<>> THEN No(st) ELSE Val(st, LikIn(g, Sub(op.x, 1, g.din)))
    [] op.o = "lbi" -> IF ~g.bi \/ g.inv = <<>> THEN No(st) ELSE Val(st, Lik(g, op.x))
    [] op.o = "reg" -> IF ~g.bi THEN No(st) ELSE Val(st, Reg(g, Sub(op.x, 1, g.din)))
    [] op.o = "cov2e" -> Val(st, [x |-> "0", y |-> "0", cov |-> op.v])

Proj(st) == [k \in Slots |-> st.g[k]]
ShapeOK(g) == g.alive => g.dim >= (IF g.bi THEN 2 ELSE 1) /\ (IF g.bi THEN g.din \in 0 .. g.dim - 1 ELSE g.din = 0)
                         /\ Len(g.mean) = g.dim /\ Len(g.cov) = Size(g.mode, g.dim) /\ (g.inv # <<>> => Len(g.inv) = Len(g.cov))
=============================================================================
