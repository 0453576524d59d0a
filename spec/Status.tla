------------------------------- MODULE Status -------------------------------
(* Status effects (buffs of the character, debuffs per target).

   An effect table is a function  name -> [s, e, u, sp]:  start, end, remaining
   charges (INF: unlimited) and the specification it was last applied with:
     sp = [dur, mdur, uses, muses, crit, dh, mult, ms, msm, aa, ha, fc, fg,
           ext, xp, al, gc, gd, ac, eo, cl]
   crit/dh in 1e-4, mult/msm in 1/1000, aa (auto delay) and ha (haste) reductions in 1/1000,
   fc/fg flat cast/recast reductions in ms, ext: re-application extends,
   xp: names it ends, al: <<>> or the actions it is restricted to (alh: is
   restricted), gc/gd forced crit/dh (0 default, 1 yes, 2 no), ac: reported as
   a condition, eo: extend only, cl: clears all buffs. *)
EXTENDS Prim

Alive(x, t) == ~(t > x.e \/ x.u = 0)
Expire(m, t) == [n \in {n \in DOMAIN m : Alive(m[n], t)} |-> m[n]]

Apply(m, t, n, sp) ==
    IF n \notin DOMAIN m
    THEN IF sp.eo THEN m
         ELSE Upd(m, n, [s |-> t, e |-> Plus(t, sp.dur), u |-> sp.uses, sp |-> sp])
    ELSE LET old  == m[n]
             left == IF old.e >= INF THEN INF ELSE Max2(old.e - t, 0)
             nd   == IF sp.ext THEN Min2(sp.mdur, Plus(left, sp.dur)) ELSE left
         IN Upd(m, n, [s |-> old.s, e |-> Plus(t, nd),
                       u |-> Min2(Plus(old.u, sp.uses), sp.muses), sp |-> sp])

EndNamed(m, t, n) == IF n \in DOMAIN m THEN [m EXCEPT ![n].e = Min2(@, t)] ELSE m
RECURSIVE EndAll(_, _, _)
EndAll(m, t, ns) == IF ns = <<>> THEN m ELSE EndAll(EndNamed(m, t, Head(ns)), t, Tail(ns))

\* --- a tracker: buffs and debuffs per target ---
DefaultTarget == "Default Target"
NewTrk == [b |-> Empty, d |-> Empty]
Deb(trk, tg) == Get(trk.d, tg, Empty)

TrkExpire(trk, t) == [b |-> Expire(trk.b, t), d |-> [x \in DOMAIN trk.d |-> Expire(trk.d[x], t)]]

\* has the buff: bh, bs; the debuff: dh, ds
TrkBuff(trk, t, n, sp) ==
    LET b0 == IF sp.cl THEN Empty ELSE trk.b
        b1 == Apply(b0, t, n, sp)
    IN [b |-> EndAll(b1, t, sp.xp),
        d |-> Upd(trk.d, DefaultTarget, EndAll(Deb(trk, DefaultTarget), t, sp.xp))]

RECURSIVE TrkDebuff(_, _, _, _, _)
TrkDebuff(trk, t, n, sp, tgs) ==
    IF tgs = <<>> THEN trk
    ELSE LET tg == Head(tgs)
             d1 == EndAll(Apply(Deb(trk, tg), t, n, sp), t, sp.xp)
         IN TrkDebuff([b |-> EndAll(trk.b, t, sp.xp), d |-> Upd(trk.d, tg, d1)],
                      t, n, sp, Tail(tgs))

\* --- which effects an action is affected by ---
\* act = [n |-> name, deny |-> <<names>>]
Valid(m, t, act) == {n \in DOMAIN m :
                        /\ t >= m[n].s
                        /\ ~IsIn(n, act.deny)
                        /\ (m[n].sp.alh => IsIn(act.n, m[n].sp.al))}

\* the effect of highest priority suppresses the later ones of the list
Prioritised(V, prio) ==
    LET P == {i \in DOMAIN prio : prio[i] \in V}
    IN IF P = {} THEN V ELSE LET i == MinS(P) IN {n \in V : \A j \in (i+1)..Len(prio) : prio[j] # n}

Accepted(m, t, act, prio) == Prioritised(Valid(m, t, act), prio)

\* one charge is used by each accepted effect
Used(m, A) == [n \in DOMAIN m |-> IF n \in A /\ m[n].u < INF THEN [m[n] EXCEPT !.u = @ - 1] ELSE m[n]]

CondsOf(m, A) == {n \in A : m[n].sp.ac}

\* two forcing effects of the same kind (buffs, or debuffs of a target) conflict
Conflict(m, A) == \/ Cardinality({n \in A : m[n].sp.gc # 0}) > 1
                  \/ Cardinality({n \in A : m[n].sp.gd # 0}) > 1

RECURSIVE SumOver(_, _, _)
SumOver(F(_), S, acc) == IF S = {} THEN acc
                         ELSE LET x == CHOOSE x \in S : TRUE IN SumOver(F, S \ {x}, acc + F(x))
RECURSIVE ProdOver(_, _, _)      \* rational <<num, den>> in thousandths, reduced lazily
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Reduce(q) == IF q[1] = 0 THEN <<0, 1>> ELSE LET g == GCD(q[1], q[2]) IN <<q[1] \div g, q[2] \div g>>
RMul(p, q) == LET a == Reduce(<<p[1], q[2]>>)   \* cross-cancel first: 32-bit integers
                  b == Reduce(<<q[1], p[2]>>)
              IN <<a[1] * b[1], a[2] * b[2]>>
ProdOver(F(_), S, acc) == IF S = {} THEN acc
                          ELSE LET x == CHOOSE x \in S : TRUE IN ProdOver(F, S \ {x}, RMul(acc, Reduce(F(x))))

HasteOf(m, A) == LET F(n) == <<1000 - m[n].sp.ha, 1000>> IN ProdOver(F, A, <<1, 1>>)
AutoDelayOf(m, A) == LET F(n) == <<1000 - m[n].sp.aa, 1000>> IN ProdOver(F, A, <<1, 1>>)
FlatCastOf(m, A) == LET F(n) == m[n].sp.fc IN IF \E n \in A : m[n].sp.fc >= INF THEN INF ELSE SumOver(F, A, 0)
FlatGcdOf(m, A) == LET F(n) == m[n].sp.fg IN SumOver(F, A, 0)
CritOf(m, A) == LET F(n) == m[n].sp.crit IN SumOver(F, A, 0)
DhOf(m, A) == LET F(n) == m[n].sp.dh IN SumOver(F, A, 0)
MainAddOf(m, A) == LET F(n) == m[n].sp.ms IN SumOver(F, A, 0)
MultOf(m, A) == LET F(n) == <<m[n].sp.mult, 1000>> IN ProdOver(F, A, <<1, 1>>)
MainMultOf(m, A) == LET F(n) == <<m[n].sp.msm, 1000>> IN ProdOver(F, A, <<1, 1>>)
ForcedCrit(m, A) == LET S == {n \in A : m[n].sp.gc # 0} IN IF S = {} THEN 0 ELSE m[CHOOSE n \in S : TRUE].sp.gc
ForcedDh(m, A)   == LET S == {n \in A : m[n].sp.gd # 0} IN IF S = {} THEN 0 ELSE m[CHOOSE n \in S : TRUE].sp.gd

\* what an action gets from an effect table, with exact aggregates
Totals(m, A) == [names |-> A, crit |-> CritOf(m, A), dh |-> DhOf(m, A), ms |-> MainAddOf(m, A),
                 mult |-> MultOf(m, A), msm |-> MainMultOf(m, A), aa |-> AutoDelayOf(m, A),
                 ha |-> HasteOf(m, A), fc |-> FlatCastOf(m, A), fg |-> FlatGcdOf(m, A),
                 gc |-> ForcedCrit(m, A), gd |-> ForcedDh(m, A)]
=============================================================================
