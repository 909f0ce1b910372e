------------------------------ MODULE KmeansMC ------------------------------
(* k-means on all small data sets: every start, every step.                    *)
EXTENDS Kmeans, FiniteSets
CONSTANTS Points,   \* coordinates
          MaxN,     \* frames
          MaxK      \* centres
VARIABLES X,    \* the frames
          cs,   \* the centres
          k     \* steps taken
vars == <<X, cs, k>>
Frames == UNION {[1 .. n -> Points] : n \in 1 .. MaxN}
Real1(f) == [t \in 1 .. Len(f) |-> <<FInt(f[t])>>]
Init == /\ k = 0
        /\ \E f \in Frames : X = Real1(f)
        /\ \E c \in 1 .. MaxK : cs = Biased(X, c, 1)
After == Step(X, cs, 1)
Settled == After.cs = cs
Next == ~Settled /\ cs' = After.cs /\ k' = k + 1 /\ UNCHANGED X
Spec == Init /\ [][Next]_vars
\* the same number of centres, inside the range of the frames or at the origin
Lowest == FNeg(FMaxSeq([t \in 1 .. Len(X) |-> FNeg(X[t][1])]))
Highest == FMaxSeq([t \in 1 .. Len(X) |-> X[t][1]])
Inside == \A c \in 1 .. Len(cs) : FEq(cs[c][1], "0") \/ (FLe(Lowest, cs[c][1]) /\ FLe(cs[c][1], Highest))
\* training ends: no start takes more steps than the default limit
Ends == k < 50
\* settled: every centre is the mean of the frames nearest to it, or the origin if there are none
Mine(c) == SelectSeq([t \in 1 .. Len(X) |-> t], LAMBDA t : Nearest(X[t], cs).k = c)
Means == Settled => \A c \in 1 .. Len(cs) :
           IF Mine(c) = <<>> THEN FEq(cs[c][1], "0")
           ELSE FClose(cs[c][1], FDiv(FSum([i \in 1 .. Len(Mine(c)) |-> X[Mine(c)[i]][1]]), FInt(Len(Mine(c)))), "1e-6", "1e-6")
Inv == Inside /\ Ends /\ Means
=============================================================================
