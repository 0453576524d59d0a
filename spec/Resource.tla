------------------------------ MODULE Resource ------------------------------
(* Job resources.  A timeline is a sequence of changes [s, e, c, r]: start, end
   of validity, amount (NINF: everything), refreshes.  A configuration is
   [n, max, al, exp, num]. *)
EXTENDS Prim

ByStart(x) == x.s
\* the amount at time t: changes up to t in time order, clamped after each
Amount(tl, cfg, t) ==
    LET past == StableSort(ByStart, SelectSeq(tl, LAMBDA x : x.s <= t))
        F(acc, x) ==
            LET last0 == IF acc.last = NONE THEN x.s ELSE acc.last
                a0    == IF Plus(last0, cfg.exp) < x.s THEN 0 ELSE acc.a
                last1 == IF x.r THEN x.s ELSE last0
            IN IF t > x.e THEN [a |-> a0, last |-> last1]
               ELSE [a |-> Max2(0, Min2(cfg.max, IF x.c <= NINF THEN 0 ELSE a0 + x.c)), last |-> last1]
        r == Fold(F, [a |-> 0, last |-> NONE], past)
    IN IF r.last # NONE /\ Plus(r.last, cfg.exp) < t THEN 0 ELSE r.a

\* tls: resource name -> timeline.  Conditions an action sees.
CondStr(cfg, a) == IF cfg.num THEN ToString(a) \o " " \o cfg.n ELSE cfg.n
ResConds(tls, cfgs, t, name) ==
    {CondStr(c, Amount(tls[c.n], c, t)) :
        c \in {c \in SetOf(cfgs) : IsIn(name, c.al) /\ Amount(tls[c.n], c, t) > 0}}

\* changes: << [n, c, d, r, clr] >>
ResAdd(tls, t, changes) ==
    LET F(acc, x) ==
          IF x.clr THEN [n \in DOMAIN acc |-> Append(acc[n], [s |-> t, e |-> INF, c |-> NINF, r |-> FALSE])]
          ELSE [acc EXCEPT ![x.n] = Append(@, [s |-> t, e |-> Plus(t, x.d), c |-> x.c, r |-> x.r])]
    IN Fold(F, tls, changes)

NewRes(cfgs) == [n \in {c.n : c \in SetOf(cfgs)} |-> <<>>]
=============================================================================
