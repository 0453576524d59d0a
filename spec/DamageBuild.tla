----------------------------- MODULE DamageBuild -----------------------------
(* From events to damage instances: events are evaluated in order of priority
   (time, then order of follow-ups, then name).  An event that is still to be
   applied later snapshots now and is put back, once per target, for its
   application.  Only an application leaves effects behind. *)
EXTENDS Timeline

VARIABLES q,     \* events still to be evaluated: number -> event
          out    \* damage instances: number -> [t, sk, c, b, d, tg]
dvars == <<q, out>>
vars == <<tvars, dvars>>

Stagger == 135
NoTot == Totals(Empty, {})

\* source of the effects of an event: "T" take at the next evaluation of a
\* snapshot, "F" not before its application, "H" have (in v)
Src(flag) == [k |-> IF flag THEN "T" ELSE "F", v |-> NoTot]
Pending(e) == [p |-> e.p, pt |-> e.pt, st |-> e.st, sk |-> e.sk, c |-> e.c, md |-> e.md, tg |-> e.tg,
               sb |-> Src(e.ss[1]), sd |-> Src(e.ss[2]), jr |-> FALSE, jc |-> FALSE, cc |-> FALSE]

StartEval ==
    /\ ph = "built"
    /\ ph' = "eval"
    /\ q' = [i \in DOMAIN evs |-> Pending(evs[i])]
    /\ out' = Empty
    /\ trk' = NewTrk /\ res' = NewRes(S.res) /\ cmb' = Empty
    /\ UNCHANGED <<tid, ix, clk, gcd, evs, dots, prs, mains, pau>>

Before(a, b) == a.p < b.p \/ (a.p = b.p /\ Sk(a.sk).rk < Sk(b.sk).rk)
\* evaluating an event of this action changes nothing another one could see
\* (only its application leaves effects behind)
Inert(k, e) == /\ k.cmb.kind = "none" /\ k.jr.kind = "none"
               /\ (k.buf.kind = "none" /\ k.deb.kind = "none") \/ (e.st # NONE /\ e.st > e.pt)
NoCharges(m, t, k) == \A n \in Accepted(m, t, Act(k), S.prio) : m[n].u >= INF
Firsts == LET m == MinS({q[i].p : i \in DOMAIN q})
              P == {i \in DOMAIN q : q[i].p = m}
              r == MinS({Sk(q[i].sk).rk : i \in P})
              R == {i \in P : Sk(q[i].sk).rk = r}
          IN IF Cardinality(R) = 1 THEN R
             \* the order of events that cannot see each other is irrelevant
             ELSE IF \A i \in R : LET k == Sk(q[i].sk) IN
                        /\ Inert(k, q[i])
                        /\ NoCharges(trk.b, q[i].pt, k)
                        /\ \A x \in DOMAIN trk.d : NoCharges(trk.d[x], q[i].pt, k)
             THEN {MinS(R)}
             \* identical pending events are interchangeable
             ELSE {i \in R : \A j \in R : j < i => q[j] # q[i]}
Without(i) == [x \in DOMAIN q \ {i} |-> q[x]]
\* number of the event put back for target j of event i
PutBack(i, j) == Len(evs) + (i - 1) * 16 + j

\* conditions after combo and positional rules; [c, m]
Comboed(c, cm, e, k) ==
    IF e.cc THEN [c |-> c, m |-> cm]
    ELSE LET u == ComboUse(cm, e.pt, Lst(k.cmb, c), e.md.f, k.n, S.brks)
         IN [c |-> Positional(k, IF u.ok THEN c ELSE c \cup {NoCombo}, e.md.b), m |-> u.m]

TargetCond(n, i) == IF n > 1 THEN {"Target " \o ToString(i)} ELSE {}

TakeBuffs(tk, t, k) ==
    LET A == Accepted(tk.b, t, Act(k), S.prio)
    IN [trk |-> [tk EXCEPT !.b = Used(@, A)], v |-> Totals(tk.b, A), c |-> CondsOf(tk.b, A), bad |-> Conflict(tk.b, A)]
TakeDebuffs(tk, t, k, tg) ==
    LET m == Deb(tk, tg)
        A == Accepted(m, t, Act(k), S.prio)
    IN [trk |-> [tk EXCEPT !.d = Upd(@, tg, Used(m, A))], v |-> Totals(m, A), c |-> CondsOf(m, A), bad |-> Conflict(m, A)]

\* the snapshot of an event that applies later
EvalSnapshot(i) ==
    LET e  == q[i]
        k  == Sk(e.sk)
        t  == e.pt
        t0 == TrkExpire(trk, t)
        tb == TakeBuffs(t0, t, k)
        B  == e.sb.k = "T"
        t1 == IF B THEN tb.trk ELSE t0
        c1 == IF B THEN e.c \cup tb.c ELSE e.c
        J  == ~e.jc /\ k.jrs
        c2 == IF J THEN c1 \cup ResConds(res, S.res, t, k.n) ELSE c1
        cb == Comboed(c2, cmb, e, k)
        c3 == cb.c
        n  == Len(e.tg)
        D  == e.sd.k = "T"
        F(acc, j) ==
            LET td == TakeDebuffs(acc.trk, t, k, e.tg[j])
                at == e.st + (IF n > 1 THEN (j - 1) * Stagger ELSE 0)
                cj == c3 \cup TargetCond(n, j) \cup (IF D THEN td.c ELSE {})
                ev == [p |-> Prio(at) + Prio(e.pt) - e.p, pt |-> at, st |-> NONE, sk |-> e.sk,
                       c |-> cj, md |-> e.md, tg |-> <<e.tg[j]>>,
                       sb |-> IF B THEN [k |-> "H", v |-> tb.v] ELSE e.sb,
                       sd |-> IF D THEN [k |-> "H", v |-> td.v] ELSE e.sd,
                       jr |-> TRUE, jc |-> J, cc |-> ~e.cc]
            IN [trk |-> IF D THEN td.trk ELSE acc.trk, q |-> Upd(acc.q, PutBack(i, j), ev)]
        r  == Fold(F, [trk |-> t1, q |-> Without(i)], [j \in 1..n |-> j])
        bad == (B /\ tb.bad) \/ (D /\ \E j \in 1..n : TakeDebuffs(t1, t, k, e.tg[j]).bad)
    IN /\ e.st # NONE
       /\ ph' = (IF bad THEN "rejected" ELSE "eval")
       /\ q' = r.q /\ trk' = r.trk /\ cmb' = cb.m
       /\ res' = (IF e.jr THEN res ELSE ResAdd(res, t, Lst(k.jr, c3)))
       /\ out' = out

\* an application
EvalApplication(i) ==
    LET e  == q[i]
        k  == Sk(e.sk)
        t  == e.pt
        t0 == TrkExpire(trk, t)
        c1 == IF e.jc THEN e.c ELSE e.c \cup ResConds(res, S.res, t, k.n)
        r1 == IF e.jr THEN res ELSE ResAdd(res, t, Lst(k.jr, c1))
        cb == Comboed(c1, cmb, e, k)
        B  == e.sb.k # "H"
        tb == TakeBuffs(t0, t, k)
        t1 == IF B THEN tb.trk ELSE t0
        bv == IF B THEN tb.v ELSE e.sb.v
        c3 == IF B THEN cb.c \cup tb.c ELSE cb.c
        n  == Len(e.tg)
        D  == e.sd.k # "H"
        F(acc, j) ==
            LET td == TakeDebuffs(acc.trk, t, k, e.tg[j])
                cj == c3 \cup TargetCond(n, j) \cup (IF D THEN td.c ELSE {})
                at == t + (IF n > 1 THEN (j - 1) * Stagger ELSE 0)
            IN [trk |-> IF D THEN td.trk ELSE acc.trk,
                c   |-> IF n > 1 THEN acc.c ELSE cj,
                out |-> IF Has(k.dmg, cj)
                        THEN Upd(acc.out, i * 16 + j, [t |-> at, sk |-> e.sk, c |-> cj, b |-> bv,
                                              d |-> IF D THEN td.v ELSE e.sd.v, tg |-> e.tg[j]])
                        ELSE acc.out]
        r  == Fold(F, [trk |-> t1, c |-> c3, out |-> out], [j \in 1..n |-> j])
        bad == (B /\ tb.bad) \/ (D /\ \E j \in 1..n : TakeDebuffs(t1, t, k, e.tg[j]).bad)
    IN /\ e.st = NONE
       /\ ph' = (IF bad THEN "rejected" ELSE "eval")
       /\ q' = Without(i) /\ out' = r.out /\ cmb' = cb.m /\ res' = r1
       /\ trk' = Leave(r.trk, t, k, r.c, e.tg)

Snapshot == /\ ph = "eval" /\ DOMAIN q # {}
            /\ \E i \in Firsts : EvalSnapshot(i)
            /\ UNCHANGED <<tid, ix, clk, gcd, evs, dots, prs, mains, pau>>
Application == /\ ph = "eval" /\ DOMAIN q # {}
               /\ \E i \in Firsts : EvalApplication(i)
               /\ UNCHANGED <<tid, ix, clk, gcd, evs, dots, prs, mains, pau>>

EndEval == /\ ph = "eval" /\ DOMAIN q = {}
           /\ ph' = "done"
           /\ UNCHANGED <<tid, ix, clk, gcd, trk, res, cmb, evs, dots, prs, mains, pau, q, out>>

SimInit(t) == Init0(t) /\ q = Empty /\ out = Empty
SimNext == \/ TimelineNext /\ UNCHANGED dvars
           \/ StartEval \/ Snapshot \/ Application \/ EndEval
=============================================================================
