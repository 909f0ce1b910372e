------------------------------- MODULE Kmeans -------------------------------
(* k-means over phrases (sequences of frames, a frame is a sequence of reals). *)
(* The library computes in single precision; so does this specification, so     *)
(* that a frame that is nearly as close to two centres is attributed alike.     *)
(* Where even that is not safe (two distances within Near of each other) the    *)
(* result says so.                                                             *)
EXTENDS Integers, Sequences, XM
Near == "1e-5"
RECURSIVE SumF32(_, _, _)
SumF32(s, i, acc) == IF i > Len(s) THEN acc ELSE SumF32(s, i + 1, F32(FAdd(acc, s[i])))
Dist(x, y) == F32(FSqrt(SumF32([d \in 1 .. Len(x) |-> LET e == F32(FSub(x[d], y[d])) IN F32(FMul(e, e))], 1, "0")))
Dists(x, cs) == Eager([k \in 1 .. Len(cs) |-> Dist(x, cs[k])])
\* the first nearest centre, and whether another one is nearly as near
Nearest(x, cs) == LET ds == Dists(x, cs)
                      k == FArgMin(ds)
                  IN [k |-> k, near |-> \E j \in 1 .. Len(cs) : j # k /\ cs[j] # cs[k] /\ FClose(ds[j], ds[k], Near, "1e-9"), d |-> ds]
\* segment means of the first phrase
Biased(first, K, n) ==
  LET step == Len(first) \div K
      part(c, d) == SumF32([t \in 1 .. step |-> F32(FDiv(first[(c - 1) * step + t][d], FInt(step)))], 1, "0")
  IN Eager([c \in 1 .. K |-> [d \in 1 .. n |-> part(c, d)]])
\* X: all frames. Every centre becomes the mean of the frames it attracts.
Step(X, cs, n) ==
  LET K == Len(cs)
      at == Eager([t \in 1 .. Len(X) |-> Nearest(X[t], cs)])
      mine(k) == SelectSeq([t \in 1 .. Len(X) |-> t], LAMBDA t : at[t].k = k)
      mean(k, d) == LET m == mine(k) IN IF Len(m) = 0 THEN "0" ELSE F32(FDiv(SumF32([i \in 1 .. Len(m) |-> X[m[i]][d]], 1, "0"), FInt(Len(m))))
  IN [cs |-> Eager([k \in 1 .. K |-> [d \in 1 .. n |-> mean(k, d)]]), near |-> \E t \in 1 .. Len(X) : at[t].near]
\* greatest move of a centre, relative to the mean distance between centres
Moved(old, new) ==
  LET K == Len(old)
      mv == FMaxSeq([k \in 1 .. K |-> Dist(old[k], new[k])])
      sep == FDiv(FSum([k \in 1 .. K * K |-> Dist(new[1 + ((k - 1) \div K)], new[1 + ((k - 1) % K)])]), FInt(K * (K - 1)))
  IN FDiv(FDiv(mv, FInt(K)), sep)
RECURSIVE Run(_, _, _, _, _, _)
\* at most left more updates
Run(X, cs, n, left, thr, near) ==
  IF left = 0 THEN [cs |-> cs, near |-> near, stop |-> FALSE]
  ELSE LET s == Step(X, cs, n) IN
       IF s.cs = cs /\ Len(cs) > 1 THEN [cs |-> cs, near |-> near \/ s.near, stop |-> TRUE] \* nothing moves any more
       ELSE IF Len(cs) = 1 THEN [cs |-> s.cs, near |-> FALSE, stop |-> TRUE]
       ELSE LET m == Moved(cs, s.cs) IN
            IF FLt(m, thr) THEN [cs |-> s.cs, near |-> near \/ s.near, stop |-> TRUE]
            ELSE Run(X, s.cs, n, left - 1, thr, near \/ s.near)
RECURSIVE NearThreshold(_, _, _, _, _)
\* whether, on the way, the move of the centres comes close to the threshold
NearThreshold(X, cs, n, left, thr) ==
  IF left = 0 THEN FALSE
  ELSE LET s == Step(X, cs, n) m == Moved(cs, s.cs) IN
       IF s.cs = cs THEN FALSE
       ELSE IF FClose(m, thr, "1e-3", "0") THEN TRUE
       ELSE IF FLt(m, thr) THEN FALSE ELSE NearThreshold(X, s.cs, n, left - 1, thr)
=============================================================================
