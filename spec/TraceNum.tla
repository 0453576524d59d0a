------------------------------ MODULE TraceNum ------------------------------
(* Damage instances recorded from the implementation: base damage, chances,
   ranges, probabilities and samples.  A scenario is a list of instances. *)
EXTENDS Damage, Json, IOUtils
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.VSCEN))
Scen == TLCGet(7)
ASSUME Scen = Scen
VARIABLES tid
Init == tid \in DOMAIN Scen
Next == FALSE /\ UNCHANGED tid
S == Scen[tid]
\* o.err o.base (thousandths) o.crit o.dh (1e-4) o.rng: <<low, high, probability (1e-8)>> per outcome; o.smp: <<k, damage>>
Near(a, b, d) == a - b <= d /\ b - a <= d
Rejected(x) == Contradiction(x)
RangeOk(x, o, i) == /\ o.rng[i].lo \in LowOf(x, o.base, Outcomes[i])
                    /\ o.rng[i].hi \in HighOf(x, o.base, Outcomes[i])
ProbOk(x, o, i) == Near(o.rng[i].p, Prob(x, Outcomes[i]), 1)
Differs(x) ==
    LET o == x.o IN
    IF Rejected(x) THEN (IF o.err = "RuntimeError" THEN {} ELSE {"not-rejected"})
    ELSE IF o.err # "" THEN {"failed"}
    ELSE (IF o.base \in BaseDamage(x) THEN {} ELSE {"base"})
         \cup (IF o.crit = CritChance(x) THEN {} ELSE {"crit"})
         \cup (IF o.dh = DhChance(x) THEN {} ELSE {"dh"})
         \cup (IF \A i \in DOMAIN o.rng : RangeOk(x, o, i) THEN {} ELSE {"ranges"})
         \cup (IF /\ \A i \in DOMAIN o.rng : ProbOk(x, o, i)
                  /\ (Len(o.rng) = 4 => Near(o.rng[1].p + o.rng[2].p + o.rng[3].p + o.rng[4].p, 100000000, 3)) THEN {} ELSE {"probabilities"})
         \cup (IF \A i \in DOMAIN o.smp : Reachable(x, o.base, Outcomes[o.smp[i].k], o.smp[i].d) THEN {} ELSE {"samples"})
Report == PrintT(<<"V", tid, UNION {Differs(S.x[i]) : i \in DOMAIN S.x}>>)
=============================================================================
