------------------------------ MODULE Mixture ------------------------------
(* Gaussian mixtures: densities, responsibilities, regression, and one step of  *)
(* expectation-maximisation.  A component is [w, m, c]: weight, mean,            *)
(* covariance (n x n or its diagonal, by mode).                                *)
EXTENDS Normal, Kmeans
Prep(m, full, n) == [m |-> m, a |-> FInv(full, n), k |-> FDiv("1", FSqrt(FMul(FDet(full, n), Pow2Pi(n))))]
\* joint densities / densities of the first din coordinates of the components of a mixture
Joint(g, mode, n) == Eager([c \in 1 .. Len(g) |-> Prep(g[c].m, Full(g[c].c, mode, n), n)])
Inputs(g, mode, n, din) == Eager([c \in 1 .. Len(g) |-> Prep(Sub(g[c].m, 1, din), Block(g[c].c, mode, n, 1, din, 1, din), din)])
Dens(x, p) == Floored(FMul(p.k, FExp(FMul("-0.5", FForm(x, p.m, p.a)))))
\* weighted densities of the components
Parts(x, g, pr) == Eager([c \in 1 .. Len(g) |-> FMul(g[c].w, Dens(x, pr[c]))])
ObsProb(x, g, pr) == FSum(Parts(x, g, pr))
Column(X, d) == [t \in 1 .. Len(X) |-> X[t][d]]
RowOf(k, n) == 1 + ((k - 1) \div n)
ColOf(k, n) == 1 + ((k - 1) % n)

\* covariance of columns cs around mean mu, weighted by r (of sum E), plus reg on the variances
WCov(cs, r, mu, E, reg, mode, n) ==
  LET T == Len(r)
      dev == Eager([d \in 1 .. n |-> [t \in 1 .. T |-> FSub(cs[d][t], mu[d])]])
      wdev == Eager([d \in 1 .. n |-> [t \in 1 .. T |-> FMul(r[t], dev[d][t])]])
      v(a, b) == FDiv(FDot(wdev[a], dev[b]), E)
  IN IF mode = "full" THEN Eager([k \in 1 .. n * n |-> LET a == RowOf(k, n) b == ColOf(k, n) IN IF a = b THEN FAdd(v(a, a), reg[a]) ELSE v(a, b)])
     ELSE Eager([d \in 1 .. n |-> FAdd(v(d, d), reg[d])])
Bad(v) == FEq(v, "0") \/ ~FFinite(v)
\* one step of expectation-maximisation over the frames X
EmStep(g, X, reg, mode, n) ==
  LET K == Len(g)
      T == Len(X)
      pr == Joint(g, mode, n)
      p == Eager([t \in 1 .. T |-> LET q == Parts(X[t], g, pr) IN [c \in 1 .. K |-> IF Bad(q[c]) THEN "1e-100" ELSE q[c]]])
      nm == Eager([t \in 1 .. T |-> FSum(p[t])])
      r == Eager([c \in 1 .. K |-> [t \in 1 .. T |-> FDiv(p[t][c], nm[t])]])
      E == Eager([c \in 1 .. K |-> FSum(r[c])])
      cs == Eager([d \in 1 .. n |-> Column(X, d)])
      mu == Eager([c \in 1 .. K |-> [d \in 1 .. n |-> FDiv(FDot(r[c], cs[d]), E[c])]])
  IN [ll |-> FSum([t \in 1 .. T |-> FLog(nm[t])]),
      g |-> Eager([c \in 1 .. K |-> [w |-> FDiv(E[c], FInt(T)), m |-> mu[c], c |-> WCov(cs, r[c], mu[c], E[c], reg, mode, n)]])]

\* ------------------------------------------------------------ initial guess
Flat(phr) == LET RECURSIVE F(_, _) F(i, acc) == IF i > Len(phr) THEN acc ELSE F(i + 1, acc \o phr[i]) IN F(1, <<>>)
MeanOf(s) == FDiv(FSum(s), FInt(Len(s)))
StdOf(s) == LET m == MeanOf(s) IN FSqrt(FDiv(FSum([t \in 1 .. Len(s) |-> FMul(FSub(s[t], m), FSub(s[t], m))]), FInt(Len(s))))
\* what is added to the variances, from the deviation of the class's frames
Reg(X, rel, ab, n) == Eager([d \in 1 .. n |-> FMax(ab, FMul(rel, StdOf(Column(X, d))))])
\* segment k of K of every phrase, joined
Segment(phr, k, K) == Flat([i \in 1 .. Len(phr) |-> LET s == Len(phr[i]) \div K IN SubSeq(phr[i], (k - 1) * s + 1, k * s)])
SegCov(S, reg, mode, n) ==
  LET cs == Eager([d \in 1 .. n |-> Column(S, d)])
      N == FInt(Len(S))
      v(a, b) == FSub(FDiv(FDot(cs[a], cs[b]), N), FMul(FDiv(FSum(cs[a]), N), FDiv(FSum(cs[b]), N)))
  IN IF mode = "full" THEN Eager([k \in 1 .. n * n |-> LET a == RowOf(k, n) b == ColOf(k, n) IN IF a = b THEN FAdd(v(a, a), reg[a]) ELSE v(a, b)])
     ELSE Eager([d \in 1 .. n |-> FAdd(v(d, d), reg[d])])
KmThr == F32("1e-20")
\* means by k-means from the segments of the first phrase, covariances of equal segments, equal weights
GmmInit(phr, K, reg, mode, n) ==
  LET X == Flat(phr)
      km == Run(X, Biased(phr[1], K, n), n, 50, KmThr, FALSE)
  IN [near |-> km.near,
      g |-> Eager([c \in 1 .. K |-> [w |-> FDiv("1", FInt(K)), m |-> km.cs[c], c |-> SegCov(Segment(phr, c, K), reg, mode, n)]])]

\* smallest pivot of the elimination of a covariance (its Schur complements)
Pivots(c, mode, n) == LET det(k) == FDet(Block(c, mode, n, 1, k, 1, k), k)
                      IN IF mode = "diag" THEN c ELSE [k \in 1 .. n |-> IF k = 1 THEN c[1] ELSE FDiv(det(k), det(k - 1))]
Sound(g, mode, n) == \A i \in 1 .. Len(g) : \A k \in 1 .. n : FLe("1e-6", Pivots(g[i].c, mode, n)[k])
\* a component that no frame belongs to, or not-a-number parameters
Regular(g) == \A i \in 1 .. Len(g) : FFinite(g[i].w) /\ \A k \in 1 .. Len(g[i].m) : FFinite(g[i].m[k])

\* ---------------------------------------------------------------- filtering
\* likelihood, responsibilities and regression of a mixture for an observation
MixFilter(x, g, mode, n, din, bi) ==
  LET xi == IF bi THEN Sub(x, 1, din) ELSE Sub(x, 1, n)
      pr == IF bi THEN Inputs(g, mode, n, din) ELSE Joint(g, mode, n)
      p == Parts(xi, g, pr)
      lik == FSum(p)
      beta == Eager([c \in 1 .. Len(g) |-> FDiv(p[c], lik)])
      cm == Eager([c \in 1 .. Len(g) |-> CondMean(xi, g[c].m, g[c].c, mode, n, din)])
      cc == Eager([c \in 1 .. Len(g) |-> CondCov(g[c].c, mode, n, din)])
  IN [lik |-> lik, beta |-> beta,
      out |-> IF ~bi THEN <<>> ELSE Eager([d \in 1 .. n - din |-> FSum([c \in 1 .. Len(g) |-> FMul(beta[c], cm[c][d])])]),
      ocov |-> IF ~bi THEN <<>> ELSE Eager([k \in 1 .. Size(mode, n - din) |-> FSum([c \in 1 .. Len(g) |-> FMul(FMul(beta[c], beta[c]), cc[c][k])])])]
=============================================================================
