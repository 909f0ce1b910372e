------------------------------- MODULE Normal -------------------------------
(* The multivariate normal distribution over strings-as-reals.             *)
(* A covariance is row-major n x n ("full") or the diagonal ("diag").      *)
EXTENDS Integers, Sequences, XM
TwoPi == "6.283185307179586"
Floor == "1e-180"
Zeros(n) == [i \in 1 .. n |-> "0"]
Size(mode, n) == IF mode = "full" THEN n * n ELSE n
\* entry (i, j) of a covariance of dimension n
Cell(c, mode, n, i, j) == IF mode = "full" THEN c[(i - 1) * n + j] ELSE IF i = j THEN c[i] ELSE "0"
\* the block of rows a..b and columns p..q, row-major
Block(c, mode, n, a, b, p, q) ==
  [k \in 1 .. (b - a + 1) * (q - p + 1) |-> Cell(c, mode, n, a + ((k - 1) \div (q - p + 1)), p + ((k - 1) % (q - p + 1)))]
Full(c, mode, n) == Block(c, mode, n, 1, n, 1, n)
Diag(c, mode, n) == [i \in 1 .. n |-> Cell(c, mode, n, i, i)]
Sub(s, a, b) == [i \in 1 .. (b - a + 1) |-> s[a + i - 1]]
Det(c, mode, n) == IF n = 0 THEN "1" ELSE FDet(Full(c, mode, n), n)
Inverse(c, mode, n) == IF n = 0 THEN <<>> ELSE IF mode = "full" THEN FInv(c, n) ELSE [i \in 1 .. n |-> FDiv("1", c[i])]
Pow2Pi(n) == FProd([i \in 1 .. n |-> TwoPi])
\* density, with the floor the library documents by use
Floored(p) == IF FNaN(p) \/ ~FFinite(p) \/ FLt(p, Floor) THEN Floor ELSE p
Density(x, mean, full, n) ==
  Floored(FDiv(FExp(FMul("-0.5", FQuad(x, mean, full))), FSqrt(FMul(FDet(full, n), Pow2Pi(n)))))
\* conditional distribution of the coordinates din+1 .. n given the first din
CondMean(x, mean, c, mode, n, din) ==
  LET ii == FInv(Block(c, mode, n, 1, din, 1, din), din)
      y == [e \in 1 .. din |-> FDot([f \in 1 .. din |-> ii[(e - 1) * din + f]], [f \in 1 .. din |-> FSub(x[f], mean[f])])]
  IN [d \in 1 .. n - din |-> FAdd(mean[din + d], FDot([e \in 1 .. din |-> Cell(c, mode, n, din + d, e)], y))]
CondCov(c, mode, n, din) ==
  LET m == n - din
      ii == FInv(Block(c, mode, n, 1, din, 1, din), din)
      y(b) == [e \in 1 .. din |-> FDot([f \in 1 .. din |-> ii[(e - 1) * din + f]], [f \in 1 .. din |-> Cell(c, mode, n, f, din + b)])]
      g(a, b) == FSub(Cell(c, mode, n, din + a, din + b), FDot([e \in 1 .. din |-> Cell(c, mode, n, din + a, e)], y(b)))
  IN IF mode = "diag" THEN [a \in 1 .. m |-> c[din + a]]
     ELSE IF din = 0 THEN [k \in 1 .. m * m |-> c[k]]
     ELSE [k \in 1 .. m * m |-> g(1 + ((k - 1) \div m), 1 + ((k - 1) % m))]
=============================================================================
