------------------------------ MODULE TraceFreq ------------------------------
(* How often events occurred among n independent samples.  The probability of
   each event follows from the model of the instances (Damage.tla); a count may
   deviate from its mean by six standard deviations (and 3, for rolls are
   integers), certain and impossible events not at all. *)
EXTENDS Damage, Json, IOUtils
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.VSCEN))
Scen == TLCGet(7)
ASSUME Scen = Scen
VARIABLES tid
Init == tid \in DOMAIN Scen
Next == FALSE /\ UNCHANGED tid
S == Scen[tid]
One == 100000000
P(e) == LET x == S.x[e.i]  y == S.x[e.j] IN
        CASE e.k = "outcome"      -> Prob(x, Outcomes[e.o])
          [] e.k = "crits"        -> CritChance(x) * CritChance(y)      \* in one sample, of two instances
          [] e.k = "directs"      -> DhChance(x) * DhChance(y)
          [] e.k = "crit-direct"  -> CritChance(x) * DhChance(y)
          [] e.k = "crit-again"   -> CritChance(x) * CritChance(x)      \* in two samples
          [] e.k = "direct-again" -> DhChance(x) * DhChance(x)
          [] e.k = "quarter"      -> One \div 4                         \* the roll lies in one quarter of its range
          [] e.k = "halves"       -> One \div 4                         \* two rolls in the lower halves
          [] e.k = "half-again"   -> One \div 4
          [] e.k = "half-crit"    -> 5000 * CritChance(x)               \* roll in the lower half and critical
          [] e.k = "half-direct"  -> 5000 * DhChance(x)
Big8 == Nat2(One)
Ok(e) == LET p == P(e) IN
    IF p = 0 THEN e.c = 0
    ELSE IF p = One THEN e.c = e.n
    ELSE LET mean == Mul(Nat2(e.n), Nat2(p))
             d0   == Dist(Mul(Nat2(e.c), Big8), mean)
             d    == IF Leq(d0, Nat2(3 * One)) THEN <<>> ELSE Sub(d0, Nat2(3 * One))
         IN Leq(Mul(d, d), MulS(Mul(mean, Nat2(One - p)), 36))
Report == PrintT(<<"V", tid, {S.ev[i].k : i \in {i \in DOMAIN S.ev : ~Ok(S.ev[i])}}>>)
=============================================================================
