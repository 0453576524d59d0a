------------------------------ MODULE TraceBest -----------------------------
(* The estimate of the best of k runs.  A scenario is a set of sampled values x
   (integers, repetitions allowed), k, the number of trials n and the estimate m
   in 1/1000.  A trial draws k of the values independently and uniformly, so the
   largest is the i-th smallest of the N values with weight i^k - (i-1)^k out of
   N^k; the mean of n trials lies within 8 standard deviations of that mean (a
   standard deviation is at most half the range over the root of n), and of one
   trial is one of the values. *)
EXTENDS Prim, BigNat, Json, IOUtils
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.VSCEN))
Scen == TLCGet(7)
ASSUME Scen = Scen
VARIABLES tid
Init == tid \in DOMAIN Scen
Next == FALSE /\ UNCHANGED tid
S == Scen[tid]
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN Nat2(1) ELSE MulS(Pow(a, k - 1), a)
RECURSIVE Root(_, _)
Root(n, r) == IF r * r <= n THEN r ELSE Root(n, r - 1)       \* the integer root of n, from above
N == Len(S.x)
X == SortSeq(S.x, LAMBDA a, b : a < b)
RECURSIVE Sum(_)
Sum(i) == IF i = 0 THEN <<>> ELSE Add(MulS(Sub(Pow(i, S.k), Pow(i - 1, S.k)), X[i]), Sum(i - 1))
Range == X[N] - X[1]
Tol == 1 + (4000 * Range) \div Root(S.n, 400)
Mean == Leq(Dist(Mul(S.m, Pow(N, S.k)), MulS(Sum(N), 1000)), MulS(Pow(N, S.k), Tol))
InRange == Leq(Nat2(X[1] * 1000), S.m) /\ Leq(S.m, Nat2(X[N] * 1000))
One == S.n = 1 => \E i \in 1..N : S.m = Nat2(X[i] * 1000)
Differs == (IF Mean THEN {} ELSE {"best-of-k-mean"}) \cup (IF InRange THEN {} ELSE {"best-of-k-range"})
      \cup (IF One THEN {} ELSE {"best-of-k-value"})
Report == PrintT(<<"V", tid, Differs>>)
=============================================================================
