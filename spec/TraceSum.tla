------------------------------ MODULE TraceSum ------------------------------
(* Summary statistics recorded from the implementation.  A scenario is one
   simulation: its instances (outcome ranges with probabilities in 1e-8,
   expected damage e in 1e-4, variance v and squared deviation w in 1/vs,
   application and snapshot time in ms), the totals, some samples, totals up to
   timestamps and an interval report. *)
EXTENDS Prim, BigNat, Json, IOUtils
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.VSCEN))
Scen == TLCGet(7)
ASSUME Scen = Scen
VARIABLES tid
Init == tid \in DOMAIN Scen
Next == FALSE /\ UNCHANGED tid
S == Scen[tid]
I == S.ins

RECURSIVE SumB(_, _, _)
SumB(F(_), s, i) == IF i > Len(s) THEN <<>> ELSE Add(F(s[i]), SumB(F, s, i + 1))
Within(a, b, d) == Leq(Dist(a, b), d)
E8 == Nat2(100000000)

\* twice the mean of a range; the mean of an instance times 2e8
Twice(r) == Add(r.lo, r.hi)
Mean2(x) == LET F(r) == Mul(Nat2(r.p), Twice(r)) IN SumB(F, x.rng, 1)
MeanOk(x) == Within(Mul(x.e, Nat2(20000)), Mean2(x), Nat2(20000))

\* variance times 12e16: within the outcomes (uniform) and between them
Var(x) == LET F(r) == LET w == Sub(r.hi, r.lo) t == Twice(r)
                      IN Mul(Nat2(r.p), Add(Mul(w, w), MulS(Mul(t, t), 3)))
              a == Mul(E8, SumB(F, x.rng, 1))
              b == MulS(Mul(Mean2(x), Mean2(x)), 3)
          IN IF Leq(b, a) THEN Sub(a, b) ELSE <<>>
E16x12 == MulS(Mul(E8, E8), 12)
VarOk(x, v) == Within(Mul(v, E16x12), MulS(Var(x), x.vs), MulS(E16x12, 2))

Slack(k) == Nat2(Len(I) + k)
TotalE == LET F(x) == x.e IN SumB(F, I, 1)
TotalOk == Within(S.tot, TotalE, Slack(1))
\* total variance, in units
TotalVOk == LET F(x) == MulS(x.v, 1000 \div x.vs) IN Within(MulS(S.totv, 1000), SumB(F, I, 1), MulS(Slack(2), 1000))

Times == {I[i].t : i \in DOMAIN I}
Length == IF I = <<>> THEN 0 ELSE MaxS(Times) - MinS(Times)
SampleOk(s) == LET F(d) == d IN
    /\ s.total = SumB(F, s.d, 1) /\ Len(s.d) = Len(I)
    /\ IF Length = 0 THEN s.inf
       ELSE ~s.inf /\ Within(Mul(s.dps, Nat2(Length)), Mul(s.total, Nat2(1000000)), Nat2(Length))

UpTo(t) == LET F(x) == IF x.sn <= t THEN x.e ELSE <<>> IN SumB(F, I, 1)
QueryOk(q) == Within(q.r, UpTo(q.t), Slack(1))

Iv == S.iv
IntervalOk ==
    /\ Len(Iv.r) = Len(Iv.ts) /\ Len(Iv.ts) >= 1
    /\ \A i \in DOMAIN Iv.ts : Within(Iv.r[i], UpTo(Iv.ts[i]), Slack(52))
    /\ \A i \in 1..(Len(Iv.ts) - 1) : /\ Iv.ts[i] = i * Iv.k
                                      /\ Iv.ts[i] < Iv.ts[i + 1] /\ Leq(Iv.r[i], Iv.r[i + 1])
    /\ Within(Iv.r[Len(Iv.r)], TotalE, Slack(52))
    /\ (I # <<>> => \A i \in DOMAIN I : I[i].sn <= Iv.ts[Len(Iv.ts)])
    /\ Iv.ts[Len(Iv.ts)] <= Len(Iv.ts) * Iv.k          \* no step of the interval is left out

Differs == (IF \A i \in DOMAIN I : MeanOk(I[i]) THEN {} ELSE {"expected"})
      \cup (IF \A i \in DOMAIN I : VarOk(I[i], I[i].v) THEN {} ELSE {"variance"})
      \cup (IF \A i \in DOMAIN I : VarOk(I[i], I[i].w) THEN {} ELSE {"deviation"})
      \cup (IF TotalOk THEN {} ELSE {"total-expected"})
      \cup (IF TotalVOk THEN {} ELSE {"total-variance"})
      \cup (IF \A i \in DOMAIN S.smp : SampleOk(S.smp[i]) THEN {} ELSE {"samples"})
      \cup (IF \A i \in DOMAIN S.q : QueryOk(S.q[i]) THEN {} ELSE {"up-to-timestamp"})
      \cup (IF Iv.k = 0 \/ IntervalOk THEN {} ELSE {"intervals"})
Report == PrintT(<<"V", tid, Differs>>)
=============================================================================
