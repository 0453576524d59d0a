------------------------------ MODULE Timeline ------------------------------
(* From presses to snapshot/application events: the rotation builder.

   One behaviour works through scenario Scen[tid] in phases
     "seq"   one press of the sequence per step (PressSeq)
     "timed" one explicitly timed press per step (PressTimed)
     "dots"  one damage-over-time instance per step (TickDot)
     "autos" one auto-attack per step (IssueAuto)
     "shift" normalise fight time (Normalise)
     "down"  drop damage in downtime (FilterDowntime)
     "done"
   The trackers below are the builder's own forecast of effects, resources and
   combos at press time; DamageBuild re-evaluates them in event order. *)
EXTENDS Cond, Status, Combo, Resource, Channel

\* the scenarios; read once and put into register 7 by the top module
Scen == TLCGet(7)
VARIABLES tid,    \* scenario number
          ph,     \* phase
          ix,     \* position within the phase
          clk,    \* earliest next press
          gcd,    \* earliest next global press
          trk,    \* effects
          res,    \* resource timelines
          cmb,    \* combo memory
          evs,    \* events so far (sequence; order irrelevant)
          dots,   \* applications of ticking follow-ups: << [tg, f, sn, ap, pm] >>
          prs,    \* presses so far: << [t, sk, c] >>
          mains,  \* << <<time, main target>> >>
          pau     \* casts [cs] and channels [ch] of the timed presses
tvars == <<tid, ph, ix, clk, gcd, trk, res, cmb, evs, dots, prs, mains, pau>>

S == Scen[tid]
Sk(id) == S.sk[id]

GlobalRecast == 2500
MinRecast == 1500
SnapLead == 500
TickInterval == 3000

\* ---------------------------------------------------------------- timing
CeilDiv(a, b) == -((-a) \div b)
SpeedTime(st, t) == 10 * ((t * (1000 + CeilDiv(st.spc * (st.sub - st.spd), st.div))) \div 10000)

\* x*q rounded down to 10 ms.  On an exact boundary either side is accepted
\* (binary floating point may fall just below it).
RECURSIVE MulDiv(_, _, _)        \* <<quotient, remainder>> of x*n by d, in 32 bits
MulDiv(x, n, d) == IF x = 0 THEN <<0, 0>>
                   ELSE LET h == MulDiv(x \div 2, n, d)
                            r == 2 * h[2] + (IF x % 2 = 1 THEN n ELSE 0)
                        IN <<2 * h[1] + r \div d, r % d>>
Quant(x, q) == IF x = 0 THEN {0}
               ELSE IF q = <<1, 1>> THEN {Floor10(x)}
               ELSE LET m == MulDiv(x, q[1], q[2] * 10)
                    IN IF m[2] = 0 THEN {10 * m[1], 10 * m[1] - 10} ELSE {10 * m[1]}

CastTimes(st, tim, ignore, haste, flat) ==
    IF ignore THEN {0}
    ELSE LET c0 == IF tim.spd THEN SpeedTime(st, tim.cast) ELSE tim.cast
             C  == IF tim.hst THEN Quant(c0, RMul(haste, st.th)) ELSE {c0}
         IN {IF flat >= INF THEN 0 ELSE Max2(0, c - flat) : c \in C}

Recasts(st, tim, haste, flat) ==
    LET r0 == IF tim.spd THEN SpeedTime(st, tim.rec) ELSE tim.rec
        R  == IF tim.hst THEN Quant(r0, RMul(haste, st.th)) ELSE {r0}
    IN {IF tim.rec = GlobalRecast THEN Max2(r - flat, MinRecast) ELSE r - flat : r \in R}

\* ---------------------------------------------------------------- events
Prio(t) == 1000 * t

\* [p, pt, st, sk, c, f, b, gc, gd, ss, tg]
Event(p, pt, st, sk, c, md, ss, tg) ==
    IF pt = st THEN [p |-> p, pt |-> pt, st |-> NONE, sk |-> sk, c |-> c, md |-> md, ss |-> <<TRUE, TRUE>>, tg |-> tg]
    ELSE [p |-> p, pt |-> pt, st |-> st, sk |-> sk, c |-> c, md |-> md, ss |-> ss, tg |-> tg]

NoMod == [f |-> FALSE, b |-> NONE, gc |-> 0, gd |-> 0]
AppTime(e) == IF e.st = NONE THEN e.pt ELSE e.st
DealsDamage(e) == Has(Sk(e.sk).dmg, e.c)

FirstDamage(E) == LET D == {i \in DOMAIN E : DealsDamage(E[i])}
                  IN IF D = {} THEN NONE ELSE MinS({AppTime(E[i]) : i \in D})
LastEvent(E) == IF E = <<>> THEN NONE ELSE MaxS({AppTime(E[i]) : i \in DOMAIN E})

\* ---------------------------------------------------------------- trackers
Act(k) == [n |-> k.n, deny |-> k.deny]

\* effects an application of action k leaves behind
Leave(tk, t, k, c, tgs) ==
    LET t1 == IF Has(k.buf, c) THEN TrkBuff(tk, t, k.n, Val(k.buf, c)) ELSE tk
    IN IF Has(k.deb, c) THEN TrkDebuff(t1, t, k.n, Val(k.deb, c), tgs) ELSE t1

(* What a press sees: effects are expired, counted and used; conditions from
   effects, resources, combo and positional are added. *)
Forecast(tk, rs, cm, t, k, p, c0) ==
    LET e0 == TrkExpire(tk, t)
        B  == Accepted(e0.b, t, Act(k), S.prio)
        m  == Deb(e0, DefaultTarget)
        D  == Accepted(m, t, Act(k), S.prio)
        e1 == [b |-> Used(e0.b, B), d |-> Upd(e0.d, DefaultTarget, Used(m, D))]
        c1 == c0 \cup CondsOf(e0.b, B) \cup CondsOf(m, D) \cup ResConds(rs, S.res, t, k.n)
        cu == ComboUse(cm, t, Lst(k.cmb, c1), p.f, k.n, S.brks)
        c2 == IF cu.ok THEN c1 ELSE c1 \cup {NoCombo}
        c3 == Positional(k, c2, p.b)
    IN [trk |-> e1, cmb |-> cu.m, c |-> c3,
        hb |-> HasteOf(e0.b, B), hd |-> HasteOf(m, D),
        fc |-> FlatCastOf(e0.b, B), fg |-> FlatGcdOf(e0.b, B),
        bad |-> Conflict(e0.b, B) \/ Conflict(m, D)]

PressConds(p) == IF p.m THEN SetOf(p.c) ELSE IF p.off THEN SetOf(Sk(p.sk).odc) ELSE {}

\* ---------------------------------------------------------------- one press
(* Everything a press at time t with cast time ct leads to; st = current
   [trk, res, cmb, evs, dots]. *)
FollowUps(st, fs, sn, ap, tgs) ==
    LET F(acc, i) ==
          LET f == fs[i] IN
          IF f.dot # NONE
          THEN [acc EXCEPT !.dots = @ \o [j \in DOMAIN tgs |-> [tg |-> tgs[j], f |-> f, sn |-> sn, ap |-> ap, pm |-> i]]]
          ELSE LET fa  == ap + f.del
                   fsn == IF f.sb \/ f.sd THEN sn ELSE fa
                   ss  == IF f.sb \/ f.sd THEN <<f.sb, f.sd>> ELSE <<TRUE, TRUE>>
                   tg  == IF f.pto THEN <<tgs[1]>> ELSE tgs
                   k   == Sk(f.sk)
               IN [acc EXCEPT !.evs = Append(@, Event(Prio(fsn) + i, fsn, fa, f.sk, {}, NoMod, ss, tg)),
                              !.trk = Leave(@, fa, k, {}, tg),
                              !.res = ResAdd(@, fa, Lst(k.jr, {})),
                              !.cmb = ComboUse(@, fa, Lst(k.cmb, {}), FALSE, k.n, S.brks).m]
    IN Fold(F, st, [i \in DOMAIN fs |-> i])

SnapshotAt(t, ct) == t + Max2(0, ct - SnapLead)
AppliedAt(t, ct, delay, ignore) ==
    t + ct + (IF ignore THEN 0 ELSE IF ct > 0 THEN Max2(0, delay - SnapLead) ELSE delay)

DoPress(st, t, p, k, c, ct) ==
    LET tim == Val(k.tim, c)
        sn == SnapshotAt(t, ct)
        ap == AppliedAt(t, ct, tim.del, p.ia)
        md == [f |-> p.f, b |-> p.b, gc |-> p.gc, gd |-> p.gd]
        s1 == [st EXCEPT !.evs = Append(@, Event(Prio(sn), sn, ap, p.sk, c, md, <<TRUE, TRUE>>, p.tg)),
                         !.trk = Leave(@, ap, k, c, p.tg),
                         !.res = ResAdd(@, sn, Lst(k.jr, c))]
    IN FollowUps(s1, Lst(k.fol, c), sn, ap, p.tg)

Init0(t) == /\ tid = t /\ ph = "seq" /\ ix = 1
            /\ clk = (IF Scen[t].o.fst = NONE THEN 0 ELSE Scen[t].o.fst)
            /\ gcd = NINF
            /\ trk = NewTrk /\ res = NewRes(Scen[t].res) /\ cmb = Empty
            /\ evs = <<>> /\ dots = <<>> /\ prs = <<>> /\ mains = <<>>
            /\ pau = [cs |-> {}, ch |-> NewChan]

\* two effects of one kind force an outcome: the input is rejected
Reject == /\ ph' = "rejected"
          /\ UNCHANGED <<tid, ix, clk, gcd, trk, res, cmb, evs, dots, prs, mains, pau>>

\* the next press of the sequence, at the earliest legal moment
PressSeq ==
    /\ ph = "seq" /\ ix <= Len(S.seq)
    /\ LET p == S.seq[ix]
           k == Sk(p.sk)
           t == IF k.gcd THEN Max2(clk, gcd) ELSE clk
           f == Forecast(trk, res, cmb, t, k, p, PressConds(p))
           tim == Val(k.tim, f.c)
       IN IF f.bad THEN Reject ELSE
          /\ \E ct \in CastTimes(S.st, tim, p.ic, f.hb, f.fc) :
             LET s == DoPress([trk |-> f.trk, res |-> res, cmb |-> f.cmb, evs |-> evs, dots |-> dots], t, p, k, f.c, ct)
             IN /\ trk' = s.trk /\ res' = s.res /\ cmb' = s.cmb /\ evs' = s.evs /\ dots' = s.dots
                /\ clk' = t + (IF k.gcd THEN ct ELSE 0) + tim.lock
                /\ \E r \in Recasts(S.st, tim, RMul(f.hb, f.hd), f.fg) :
                      gcd' = IF k.gcd THEN t + r ELSE gcd
          /\ prs' = Append(prs, [t |-> t, sk |-> p.sk, c |-> PressConds(p)])
          /\ mains' = Append(mains, <<t, p.tg[1]>>)
          /\ ix' = ix + 1
          /\ UNCHANGED <<tid, ph, pau>>

EndSeq ==
    /\ ph = "seq" /\ ix > Len(S.seq)
    /\ ph' = "timed" /\ ix' = 1
    /\ trk' = NewTrk /\ res' = NewRes(S.res) /\ cmb' = Empty
    /\ UNCHANGED <<tid, clk, gcd, evs, dots, prs, mains, pau>>

\* explicitly timed presses in time order (simultaneous ones by name)
TimedOrder == LET K1(j) == Sk(S.tim[j].sk).rk
                  K2(j) == S.tim[j].t
              IN StableSort(K2, StableSort(K1, [j \in DOMAIN S.tim |-> j]))

PressTimed ==
    /\ ph = "timed" /\ ix <= Len(S.tim)
    /\ LET p == S.tim[TimedOrder[ix]]
           k == Sk(p.sk)
           f == Forecast(trk, res, cmb, p.t, k, p, PressConds(p))
           tim == Val(k.tim, f.c)
       IN IF f.bad THEN Reject ELSE
          /\ \E ct \in CastTimes(S.st, tim, p.ic, f.hb, f.fc) :
             LET s == DoPress([trk |-> f.trk, res |-> res, cmb |-> f.cmb, evs |-> evs, dots |-> dots], p.t, p, k, f.c, ct)
             IN /\ trk' = s.trk /\ res' = s.res /\ cmb' = s.cmb /\ evs' = s.evs /\ dots' = s.dots
                /\ pau' = [cs |-> IF ct > 0 THEN pau.cs \cup {<<p.t, p.t + ct>>} ELSE pau.cs,
                           ch |-> LET c0 == PressConds(p)
                                      h  == Has(k.chan, c0)
                                  IN ChanPress(pau.ch, p.t, k.n, k.wait, h, IF h THEN Val(k.chan, c0) ELSE 0)]
          /\ prs' = Append(prs, [t |-> p.t, sk |-> p.sk, c |-> PressConds(p)])
          /\ mains' = Append(mains, <<p.t, p.tg[1]>>)
          /\ ix' = ix + 1
          /\ UNCHANGED <<tid, ph, clk, gcd>>

\* ---------------------------------------------------------------- dots
(* Instances of one ticking effect on one target, in order of application;
   each ends at its duration or at the next application. *)
DotKeys == {<<dots[i].tg, dots[i].f.fid>> : i \in DOMAIN dots}
DotApps(key) == LET Ap(x) == x.ap
                IN StableSort(Ap, SelectSeq(dots, LAMBDA x : <<x.tg, x.f.fid>> = key))
DotEnd(apps, i) == LET e == apps[i].ap + apps[i].f.dot
                   IN IF i = Len(apps) THEN e ELSE Min2(e, apps[i + 1].ap)
DotStart(x) == IF S.o.snap = NONE THEN x.ap
               ELSE LET r == (x.ap - S.o.snap) % TickInterval
                    IN IF r = 0 THEN x.ap ELSE x.ap - r + TickInterval
TickTimes(a, b) == IF b <= a THEN <<>>
                   ELSE [j \in 1..(((b - 1 - a) \div TickInterval) + 1) |-> a + (j - 1) * TickInterval]

\* cap: no tick after it (INF: no cap)
Ticks(apps, cap) ==
    LET F(acc, i) ==
          LET x == apps[i]
              ts == SelectSeq(TickTimes(DotStart(x), DotEnd(apps, i)), LAMBDA t : t <= cap)
          IN acc \o [j \in DOMAIN ts |->
                Event(Prio(x.sn) + x.pm + Len(acc) + j - 1, x.sn, ts[j], x.f.sk, {}, NoMod,
                      <<x.f.sb, x.f.sd>>, <<x.tg>>)]
    IN Fold(F, <<>>, [i \in DOMAIN apps |-> i])

RECURSIVE AllTicks(_, _)
AllTicks(keys, cap) == IF keys = {} THEN <<>>
                       ELSE LET k == CHOOSE k \in keys : TRUE
                            IN Ticks(DotApps(k), cap) \o AllTicks(keys \ {k}, cap)

TickDots ==
    /\ ph = "timed" /\ ix > Len(S.tim)
    /\ LET last == LastEvent(evs)
           cap == IF S.o.trail /\ last # NONE THEN last ELSE INF
       IN /\ evs' = evs \o AllTicks(DotKeys, cap)
          \* clk/gcd are reused from here on: clk = end of fight for autos
          /\ clk' = (IF S.o.trail THEN last ELSE LastEvent(evs'))
          /\ IF S.o.autos /\ FirstDamage(evs') # NONE
             THEN ph' = "autos" /\ gcd' = FirstDamage(evs')
             ELSE ph' = "shift" /\ gcd' = gcd
    /\ ix' = 1
    /\ UNCHANGED <<tid, trk, res, cmb, dots, prs, mains, pau>>

\* ---------------------------------------------------------------- autos
AutoK == Sk(S.auto)
AutoDelay == Val(AutoK.tim, {}).del

\* windows of a target: its own and those for everyone
Windows(tg) == SelectSeq(S.o.dt, LAMBDA w : w.tg = tg \/ w.tg = "*")
AutoShift == IF S.o.fst = NONE THEN FirstDamage(evs) ELSE 0

MainTarget(t) ==
    LET T(x) == x[1]
        ms == StableSort(T, mains)
        past == {i \in DOMAIN ms : ms[i][1] <= t}
    IN IF past = {} THEN ms[1][2] ELSE ms[MaxS(past)][2]

\* the auto-delay factor in force at time t, from the effects applied so far
EffectEvents == LET k1(i) == Sk(evs[i].sk).rk
                   k2(i) == evs[i].p
                   k3(i) == AppTime(evs[i])
                   sel == SelectSeq([i \in DOMAIN evs |-> i],
                            LAMBDA i : LET k == Sk(evs[i].sk) IN
                              Has(k.buf, evs[i].c) \/ Has(k.deb, evs[i].c))
               IN StableSort(k3, StableSort(k2, StableSort(k1, sel)))

\* what they leave behind by time t; the order of coinciding ones of equal rank
\* (variants of one action applied together) is free
Applied(tk, i) == LET e == evs[i] IN Leave(TrkExpire(tk, AppTime(e)), AppTime(e), Sk(e.sk), e.c, <<S.o.def>>)
RECURSIVE AnyOrder(_, _)
AnyOrder(T, G) == IF G = {} THEN T ELSE UNION {AnyOrder({Applied(tk, i) : tk \in T}, G \ {i}) : i \in G}
RECURSIVE LeftBehind(_, _, _)
LeftBehind(T, L, t) ==
    IF L = <<>> \/ AppTime(evs[Head(L)]) > t THEN T
    ELSE LET e == evs[Head(L)]
             G == {i \in SetOf(L) : AppTime(evs[i]) = AppTime(e) /\ evs[i].p = e.p /\ Sk(evs[i].sk).rk = Sk(e.sk).rk}
         IN IF \A i \in G : evs[i].c = e.c /\ evs[i].sk = e.sk
            THEN LeftBehind({Applied(tk, Head(L)) : tk \in T}, Tail(L), t)
            ELSE LeftBehind(AnyOrder(T, G), SelectSeq(L, LAMBDA i : i \notin G), t)
AutoFactors(t) ==
    LET Of(tk) == LET e0 == TrkExpire(tk, t)
                      m  == Deb(e0, DefaultTarget)
                  IN RMul(AutoDelayOf(e0.b, Accepted(e0.b, t, Act(AutoK), S.prio)),
                          AutoDelayOf(m, Accepted(m, t, Act(AutoK), S.prio)))
    IN {Of(tk) : tk \in LeftBehind({NewTrk}, EffectEvents, t)}

(* Casts and channels of the timed presses, during which autos pause.  (The
   builder does not consider presses of the sequence here.) *)
Pauses == pau.cs \cup SetOf(ChanEnd(pau.ch).wins)

Forward(t, tg, pauses) ==
    LET rel == t - AutoShift
        W == SelectSeq(Windows(tg), LAMBDA w : w.s <= rel /\ rel < w.e /\ (w.cls = "" \/ w.cls = "AUTO"))
        t1 == IF W = <<>> THEN t ELSE W[1].e + AutoShift
        P == {w \in pauses : w[1] <= t1 /\ t1 <= w[2]}
    IN IF P = {} THEN t1 ELSE MaxS({w[2] : w \in P})
\* the end of one may lie within another
RECURSIVE Postpone(_, _, _)
Postpone(t, tg, pauses) == LET u == Forward(t, tg, pauses) IN IF u = t THEN t ELSE Postpone(u, tg, pauses)

\* gcd holds the moment of the next auto, clk the end of the fight
IssueAuto ==
    /\ ph = "autos" /\ gcd + AutoDelay < clk
    /\ LET tg == MainTarget(gcd)
           e == Event(Prio(gcd), gcd, gcd + AutoDelay, S.auto, {}, NoMod, <<TRUE, TRUE>>, <<tg>>)
       IN /\ evs' = Append(evs, e)
          /\ \E d \in UNION {Quant(S.st.wd, RMul(f, S.st.ta)) : f \in AutoFactors(gcd)} :
                gcd' = Postpone(gcd + d, tg, Pauses)
    /\ UNCHANGED <<tid, ph, ix, clk, trk, res, cmb, dots, prs, mains, pau>>

EndAutos ==
    /\ ph = "autos" /\ gcd + AutoDelay >= clk
    /\ ph' = "shift"
    /\ UNCHANGED <<tid, ix, clk, gcd, trk, res, cmb, evs, dots, prs, mains, pau>>

\* ---------------------------------------------------------------- fight time
ShiftEv(e, d) == [e EXCEPT !.p = @ - Prio(d), !.pt = @ - d, !.st = IF @ = NONE THEN NONE ELSE @ - d]

Normalise ==
    /\ ph = "shift"
    /\ LET d == IF S.o.fst # NONE \/ FirstDamage(evs) = NONE THEN 0 ELSE FirstDamage(evs)
       IN /\ evs' = [i \in DOMAIN evs |-> ShiftEv(evs[i], d)]
          /\ prs' = [i \in DOMAIN prs |-> [prs[i] EXCEPT !.t = @ - d]]
    /\ ph' = "down"
    /\ UNCHANGED <<tid, ix, clk, gcd, trk, res, cmb, dots, mains, pau>>

\* ---------------------------------------------------------------- downtime
Down(t, tg, cls) == \E i \in DOMAIN S.o.dt :
    LET w == S.o.dt[i] IN
    (w.tg = tg \/ w.tg = "*") /\ w.s <= t /\ t < w.e /\ (w.cls = "" \/ w.cls = cls)

Kept(e) ==
    LET k == Sk(e.sk) IN
    IF ~Has(k.dmg, e.c) THEN e.tg
    ELSE LET cls == Val(k.dmg, e.c).cls
         IN SelectSeq(e.tg, LAMBDA tg : ~Down(AppTime(e), tg, cls) /\ ~Down(e.pt, tg, cls))

FilterDowntime ==
    /\ ph = "down"
    /\ LET E == [i \in DOMAIN evs |-> [evs[i] EXCEPT !.tg = Kept(evs[i])]]
       IN evs' = SelectSeq(E, LAMBDA e : e.tg # <<>>)
    /\ ph' = "built"
    /\ UNCHANGED <<tid, ix, clk, gcd, trk, res, cmb, dots, prs, mains, pau>>

TimelineNext == PressSeq \/ EndSeq \/ PressTimed \/ TickDots \/ IssueAuto \/ EndAutos
                \/ Normalise \/ FilterDowntime
=============================================================================
