----------------------------- MODULE TracePipe -----------------------------
(* Trace validation: every scenario carries in `obs` what the implementation
   made of it, and each behaviour of the specification ends with a verdict
   line  <<"V", tid, clauses>>  where clauses is the set of what differs ({}:
   the implementation's output is a behaviour of the specification).  A
   scenario is accepted if one of its behaviours is. *)
EXTENDS DamageBuild, Json, IOUtils

ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.VSCEN))   \* read once
\* comparing puts every record into normal form, before several workers share it
ASSUME Scen = Scen

O == S.obs

\* ------------------------------------------------------------ comparisons
\* first six decimals of n/d
RECURSIVE Digits(_, _, _, _)
Digits(r, d, k, acc) == IF k = 0 THEN acc ELSE Digits((r * 10) % d, d, k - 1, acc * 10 + (r * 10) \div d)
Dec6(r) == Digits(r[1] % r[2], r[2], 6, 0) + 1000000 * (r[1] \div r[2])
Near(o, r) == LET x == Dec6(r) IN o - x \in {-1, 0, 1}

SameTotals(o, v) == /\ SetOf(o.names) = v.names
                    /\ o.crit = v.crit /\ o.dh = v.dh /\ o.ms = v.ms /\ o.fc = v.fc /\ o.fg = v.fg
                    /\ o.gc = v.gc /\ o.gd = v.gd
                    /\ Near(o.mult, v.mult) /\ Near(o.msm, v.msm) /\ Near(o.aa, v.aa) /\ Near(o.ha, v.ha)

\* projections of events and instances, increasingly detailed
EvKey(e, lvl) == IF lvl = 1 THEN <<e.pt, e.st, e.sk>>
                 ELSE IF lvl = 2 THEN <<e.pt, e.st, e.sk, e.tg>>
                 ELSE IF lvl = 3 THEN <<e.pt, e.st, e.sk, e.tg, e.ss>>
                 ELSE <<e.pt, e.st, e.sk, e.tg, e.ss, e.c>>
ObsEv == TLCEval([i \in DOMAIN O.evs |->
            LET e == O.evs[i] IN [pt |-> e.pt, st |-> e.st, sk |-> e.sk, tg |-> e.tg,
                                  ss |-> <<e.sb, e.sd>>, c |-> SetOf(e.c)]])
EvSame(lvl) == SameBag([i \in DOMAIN ObsEv |-> EvKey(ObsEv[i], lvl)], [i \in DOMAIN evs |-> EvKey(evs[i], lvl)])
EvClauses == IF ~EvSame(1) THEN {"event-times"}
             ELSE IF ~EvSame(2) THEN {"event-targets"}
             ELSE IF ~EvSame(3) THEN {"event-snapshots"}
             ELSE IF ~EvSame(4) THEN {"event-conditions"}
             ELSE {}

\* presses are compared in time order (the order of simultaneous ones is free)
PrKey(p, lvl) == IF lvl = 1 THEN <<p.t, p.sk>> ELSE <<p.t, p.sk, p.c>>
PrSame(lvl) == SameBag([i \in DOMAIN O.prs |-> PrKey([t |-> O.prs[i].t, sk |-> O.prs[i].sk, c |-> SetOf(O.prs[i].c)], lvl)],
                       [i \in DOMAIN prs |-> PrKey(prs[i], lvl)])
PrClauses == (IF ~PrSame(1) THEN {"press-times"} ELSE IF ~PrSame(2) THEN {"press-conditions"} ELSE {})
             \cup (IF \E i \in 1..(Len(O.prs) - 1) : O.prs[i].t > O.prs[i + 1].t THEN {"press-order"} ELSE {})

InKey(x, lvl) == IF lvl = 1 THEN <<x.t, x.sk, x.tg>> ELSE <<x.t, x.sk, x.tg, x.c>>
ObsIn == TLCEval([i \in DOMAIN O.ins |-> LET x == O.ins[i] IN [t |-> x.t, sk |-> x.sk, tg |-> x.tg, c |-> SetOf(x.c)]])
InSame(lvl) == SameBag([i \in DOMAIN ObsIn |-> InKey(ObsIn[i], lvl)], LET d == SeqOfSet(DOMAIN out) IN [i \in DOMAIN d |-> InKey(out[d[i]], lvl)])
\* a one-to-one matching of instances with equal effects; keys are few, so
\* counting per (instance, effects) pair is enough
EffSame(lvl) ==
    LET M(i, j) == /\ InKey(ObsIn[i], 2) = InKey(out[j], 2)
                   /\ SameTotals(O.ins[i].b, out[j].b)
                   /\ (lvl = 2 => SameTotals(O.ins[i].d, out[j].d))
        Like == TLCEval([i \in DOMAIN O.ins |-> {j \in DOMAIN out : M(i, j)}])
    IN \A i \in DOMAIN O.ins :
          /\ Like[i] # {}
          /\ Cardinality({k \in DOMAIN O.ins : Like[k] = Like[i]}) = Cardinality(Like[i])
\* potency and class are those of the variant under the final conditions
DmgSame == \A i \in DOMAIN O.ins :
    LET v == Damage(Sk(O.ins[i].sk), ObsIn[i].c)
    IN O.ins[i].cls = v.cls /\ O.ins[i].pot - v.pot \in {-1, 0, 1}
InClauses == IF ~InSame(1) THEN {"instances"}
             ELSE IF ~InSame(2) THEN {"instance-conditions"}
             ELSE IF ~DmgSame THEN {"instance-damage"}
             ELSE IF ~EffSame(1) THEN {"instance-buffs"}
             ELSE IF ~EffSame(2) THEN {"instance-debuffs"}
             ELSE {}

\* digests of what the caller passed in, before [a] and after [b]
InputClauses == IF "inp" \notin DOMAIN O THEN {}
                ELSE {"changed-" \o O.inp[i].n : i \in {j \in DOMAIN O.inp : O.inp[j].a # O.inp[j].b}}

\* the report per instance names the same instances, in order
PerClauses ==
    IF "per" \notin DOMAIN O \/ O.per = <<>> THEN {}
    ELSE IF /\ Len(O.per) = Len(O.ins)
            /\ \A i \in DOMAIN O.per :
                  LET p == O.per[i]
                      x == O.ins[i]
                  IN /\ p.t = x.t /\ p.n = Sk(x.sk).n /\ p.id = x.id /\ p.tg = x.tg /\ p.cls = x.cls
                     /\ p.pot - x.pot \in {-1, 0, 1}
                     /\ SetOf(p.c) = SetOf(x.c) /\ SetOf(p.b) = SetOf(x.b.names) /\ SetOf(p.d) = SetOf(x.d.names)
         THEN {} ELSE {"instance-report"}

\* facts about the output itself
OutClauses ==
    PerClauses \cup
    (IF \E i \in 1..(Len(O.ins) - 1) : O.ins[i].t > O.ins[i + 1].t THEN {"instance-order"} ELSE {})
    \cup (IF \E i, j \in DOMAIN O.evs : i # j /\ O.evs[i].id = O.evs[j].id THEN {"event-numbers"} ELSE {})
    \cup (IF \A i \in DOMAIN O.ins : \E j \in DOMAIN O.evs :
                /\ O.evs[j].id = O.ins[i].id /\ O.evs[j].sk = O.ins[i].sk
                /\ IsIn(O.ins[i].tg, O.evs[j].tg)
                /\ O.ins[i].sn = O.evs[j].pt
                /\ LET at == IF O.evs[j].st = NONE THEN O.evs[j].pt ELSE O.evs[j].st
                   IN \E n \in DOMAIN O.evs[j].tg : O.evs[j].tg[n] = O.ins[i].tg /\ O.ins[i].t = at + (n - 1) * Stagger
          THEN {} ELSE {"instance-event"})
    \cup (IF \A j \in DOMAIN O.evs : \A n \in DOMAIN O.evs[j].tg :
                Cardinality({i \in DOMAIN O.ins : O.ins[i].id = O.evs[j].id /\ O.ins[i].tg = O.evs[j].tg[n]})
                  <= Cardinality({m \in DOMAIN O.evs[j].tg : O.evs[j].tg[m] = O.evs[j].tg[n]})
          THEN {} ELSE {"instance-event"})

Verdict(c) == PrintT(<<"V", tid, c>>)

\* ------------------------------------------------------------ pruning
\* during the sequence, the last gap between presses must have been observed
\* (only decisive on rounding boundaries, where several are allowed)
GapSeen == LET n == Len(prs) IN
           IF n < 2 THEN TRUE
           ELSE \E i, j \in DOMAIN O.prs :
                       /\ O.prs[i].sk = prs[n-1].sk /\ O.prs[j].sk = prs[n].sk
                       /\ O.prs[j].t - O.prs[i].t = prs[n].t - prs[n-1].t

\* likewise the gap between the last two autos, unless downtime removes some
AutoGapSeen ==
    LET n == Len(evs) IN
    IF n < 2 \/ S.o.dt # <<>> THEN TRUE
    ELSE IF evs[n-1].sk # S.auto \/ evs[n].sk # S.auto THEN TRUE
    ELSE \E i, j \in DOMAIN O.evs :
            /\ O.evs[i].sk = S.auto /\ O.evs[j].sk = S.auto
            /\ O.evs[j].pt - O.evs[i].pt = evs[n].pt - evs[n-1].pt

Live == IF ph = "seq" THEN GapSeen
        ELSE IF ph = "autos" THEN AutoGapSeen
        ELSE IF ph = "built" THEN PrClauses \cup EvClauses = {}
        ELSE TRUE

TInit == /\ \E t \in DOMAIN Scen : SimInit(t)
TNext == /\ (IF O.err = "" THEN Live ELSE TRUE) = TRUE
         /\ SimNext

\* evaluated on every reachable state; always TRUE
Report ==
    CASE ph = "done" -> Verdict(IF O.err # "" THEN {"failed"} ELSE InClauses \cup OutClauses \cup InputClauses)
      [] ph = "rejected" -> Verdict(IF O.err = "AssertionError" THEN {} ELSE {"not-rejected"})
      [] O.err = "" /\ ph = "seq" /\ ~GapSeen -> Verdict({"press-times"})
      [] O.err = "" /\ ph = "autos" /\ ~AutoGapSeen -> Verdict({"event-times"})
      [] O.err = "" /\ ph = "built" /\ ~Live -> Verdict(PrClauses \cup EvClauses)
      [] OTHER -> TRUE
=============================================================================
