------------------------------- MODULE MCPipe -------------------------------
(* The pipeline over every rotation of a small world (the harness enumerates
   them: all press sequences over a menu, with all gaps and options).  Besides
   being compared with what the implementation made of each (TracePipe), every
   behaviour must satisfy the invariants below, which state the properties once
   more over the presses, events and instances themselves. *)
EXTENDS TracePipe

\* C01: locks are respected, a global recast of 2.5 s never falls below 1.5 s,
\* an ability never waits for anything but the previous cast and lock
SeqLegal ==
    ph = "seq" =>
        \A i \in 1..(Len(prs) - 1) :
            LET a == Sk(prs[i].sk)
                b == Sk(prs[i + 1].sk)
                gap == prs[i + 1].t - prs[i].t
                ta == a.tim.v
                G == {j \in 1..i : Sk(prs[j].sk).gcd}
            IN /\ gap >= ta.lock
               /\ ~b.gcd => gap <= ta.lock + (IF a.gcd THEN ta.cast ELSE 0)
               /\ b.gcd /\ G # {} =>
                     LET g == MaxS(G)
                         tg == Sk(prs[g].sk).tim.v
                     IN /\ tg.rec = GlobalRecast => prs[i + 1].t - prs[g].t >= MinRecast
                        \* nothing makes a recast longer than it is at base speed
                        /\ \/ prs[i + 1].t - prs[g].t <= tg.rec
                           \/ gap <= ta.lock + (IF a.gcd THEN ta.cast ELSE 0)
               /\ b.gcd /\ G = {} => gap <= ta.lock

\* C02: nothing applies before it snapshots; a cast longer than half a second
\* snapshots half a second before its end
SnapFirst == ph \in {"timed", "shift", "built"} => \A i \in DOMAIN evs : AppTime(evs[i]) >= evs[i].pt

\* C06: the ticks of an effect on a target are exactly the moments, 3 s apart from the
\* (grid-aligned) application that is the latest one so far, within its duration
TickIds == {dots[i].f.sk : i \in DOMAIN dots}
Ticking == {i \in DOMAIN evs : evs[i].sk \in TickIds}
Due(tg, sk, t) ==
    \E x \in SetOf(dots) :
        /\ x.tg = tg /\ x.f.sk = sk
        /\ t >= x.ap /\ t < x.ap + x.f.dot /\ t >= DotStart(x) /\ (t - DotStart(x)) % TickInterval = 0
        /\ ~\E y \in SetOf(dots) : y.tg = tg /\ y.f.sk = sk /\ x.ap < y.ap /\ y.ap <= t
Moments == {DotStart(x) + TickInterval * n : x \in SetOf(dots), n \in 0..6}
TicksExact ==
    ph = "shift" /\ ~S.o.autos =>
        LET others == DOMAIN evs \ Ticking
            cap == IF S.o.trail /\ others # {} THEN MaxS({AppTime(evs[j]) : j \in others}) ELSE INF
        IN /\ \A i, j \in Ticking : i # j /\ evs[i].sk = evs[j].sk /\ evs[i].tg = evs[j].tg => AppTime(evs[i]) # AppTime(evs[j])
           /\ \A x \in SetOf(dots), t \in Moments :
                 (\E i \in Ticking : evs[i].sk = x.f.sk /\ evs[i].tg = <<x.tg>> /\ AppTime(evs[i]) = t)
                 <=> (Due(x.tg, x.f.sk, t) /\ t <= cap)
           /\ Cardinality(Ticking) =
                 Cardinality({<<x.tg, x.f.sk, t>> : x \in SetOf(dots), t \in Moments}
                             \cap {<<evs[i].tg[1], evs[i].sk, AppTime(evs[i])>> : i \in Ticking})

\* C07: the first auto is issued at the first damage, two autos are never closer than the
\* fastest delay, none is issued within a cast or channel of a press, none after the end
AutoIds == {i \in DOMAIN evs : evs[i].sk = S.auto}
AutosLegal ==
    ph = "shift" /\ S.o.autos =>
        LET others == DOMAIN evs \ AutoIds
            first == FirstDamage([i \in 1..Cardinality(others) |-> evs[SeqOfSet(others)[i]]])
        IN /\ \A i, j \in AutoIds : i # j => evs[i].pt # evs[j].pt
           /\ AutoIds # {} => MinS({evs[i].pt : i \in AutoIds}) = first
           /\ \A i \in AutoIds : evs[i].pt # first =>
                 \A w \in Pauses : ~(w[1] <= evs[i].pt /\ evs[i].pt < w[2])
           /\ \A i \in AutoIds : evs[i].pt # first => \A m \in SetOf(mains) :
                 (\A n \in SetOf(mains) : n[2] = m[2]) => ~Down(evs[i].pt - AutoShift, m[2], "AUTO")
           /\ \A i, j \in AutoIds : evs[i].pt < evs[j].pt => 2 * (evs[j].pt - evs[i].pt) >= S.st.wd
           /\ \A i \in AutoIds : AppTime(evs[i]) < clk
           /\ \A i \in AutoIds : LET P == {m \in SetOf(mains) : m[1] <= evs[i].pt}
                                 IN P # {} => \E m \in P : m[2] = evs[i].tg[1] /\ \A n \in P : n[1] <= m[1]

\* C08: no damage is left in a window
DownEmpty ==
    ph = "built" =>
        \A i \in DOMAIN evs : DealsDamage(evs[i]) =>
            \A j \in DOMAIN evs[i].tg : LET cls == Val(Sk(evs[i].sk).dmg, evs[i].c).cls IN
                ~Down(evs[i].pt, evs[i].tg[j], cls) /\ ~Down(AppTime(evs[i]), evs[i].tg[j], cls)

\* C09: fight time starts with the first damage
StartsAtZero == ph = "down" /\ S.o.fst = NONE /\ FirstDamage(evs) # NONE => FirstDamage(evs) = 0

\* the event (number) and hit an instance came from
FromEvent(x) == LET i == x \div 16 IN IF i <= Len(evs) THEN i ELSE ((i - Len(evs) - 1) \div 16) + 1
HitNo(x) == LET i == x \div 16 IN IF i <= Len(evs) THEN x % 16 ELSE ((i - Len(evs) - 1) % 16) + 1

\* C14, C24: one instance per damaging event and target, staggered by hit number
OnePerTarget ==
    ph = "done" =>
        /\ \A x \in DOMAIN out :
              LET e == evs[FromEvent(x)]
                  n == HitNo(x)
              IN /\ out[x].sk = e.sk /\ out[x].tg = e.tg[n]
                 /\ out[x].t = AppTime(e) + (IF Len(e.tg) > 1 THEN (n - 1) * Stagger ELSE 0)
                 /\ (\E j \in 1..10 : ("Target " \o ToString(j)) \in out[x].c) <=> Len(e.tg) > 1
        /\ \A x, y \in DOMAIN out : x # y => <<FromEvent(x), HitNo(x)>> # <<FromEvent(y), HitNo(y)>>
        /\ \A i \in DOMAIN evs : Sk(evs[i].sk).dmg.kind = "one" =>
              Cardinality({x \in DOMAIN out : FromEvent(x) = i}) = Len(evs[i].tg)

\* C05: what an instance carries was granted, by an application not after its snapshot,
\* at most its (maximum) duration before it, and not cleared in between
\* longest possible life after an application
Lasts(a, c) == Max2(Val(a, c).dur, Val(a, c).mdur)
Granted(n, asp, tg, s, self) ==
    \E i \in DOMAIN evs :
        LET k == Sk(evs[i].sk) IN
        /\ k.n = n /\ i # self
        /\ IF asp = "b" THEN k.buf.kind # "none" ELSE k.deb.kind # "none"
        /\ asp = "d" => IsIn(tg, evs[i].tg)
        /\ AppTime(evs[i]) <= s
        /\ (IF asp = "b" THEN k.buf.kind = "one" ELSE k.deb.kind = "one") =>
              s <= AppTime(evs[i]) + Lasts(IF asp = "b" THEN k.buf ELSE k.deb, {})
CarriesOnlyGranted ==
    ph = "done" =>
        \A x \in DOMAIN out :
            LET i == FromEvent(x)
                e == evs[i]
                sb == IF e.ss[1] \/ e.st = NONE THEN e.pt ELSE out[x].t
                sd == IF e.ss[2] \/ e.st = NONE THEN e.pt ELSE out[x].t
            IN /\ \A n \in out[x].b.names : Granted(n, "b", "", sb, i)
               /\ \A n \in out[x].d.names : Granted(n, "d", out[x].tg, sd, i)

\* C05: and it carries everything unlimited, unrestricted and not cleared that was
\* granted before its snapshot and has not run out
Plain(a) == a.kind = "one" /\ a.v.uses >= INF /\ ~a.v.alh /\ ~a.v.eo /\ ~a.v.cl
Undisturbed == /\ S.prio = <<>>
               /\ \A k \in SetOf(S.sk) : /\ k.deny = <<>>
                                         /\ k.buf.kind = "one" => ~k.buf.v.cl /\ k.buf.v.xp = <<>>
                                         /\ k.deb.kind = "one" => k.deb.v.xp = <<>>
                                         /\ k.buf.kind # "dict"
CarriesAllGranted ==
    ph = "done" /\ Undisturbed =>
        \A x \in DOMAIN out, j \in DOMAIN evs :
            LET e == evs[FromEvent(x)]
                k == Sk(evs[j].sk)
                sb == IF e.ss[1] \/ e.st = NONE THEN e.pt ELSE out[x].t
                sd == IF e.ss[2] \/ e.st = NONE THEN e.pt ELSE out[x].t
            IN /\ Plain(k.buf) /\ AppTime(evs[j]) < sb /\ sb <= AppTime(evs[j]) + k.buf.v.dur => k.n \in out[x].b.names
               /\ Plain(k.deb) /\ (\E m \in DOMAIN evs[j].tg : /\ evs[j].tg[m] = out[x].tg
                                       /\ AppTime(evs[j]) + (m - 1) * Stagger < sd)
                  /\ sd <= AppTime(evs[j]) + k.deb.v.dur => k.n \in out[x].d.names

\* C23: nothing granted before everything was cleared is carried afterwards (unless granted
\* again), while debuffs stay
ClearedGone ==
    ph = "done" =>
        \A x \in DOMAIN out, j \in DOMAIN evs :
            LET e == evs[FromEvent(x)]
                s == IF e.ss[1] \/ e.st = NONE THEN e.pt ELSE out[x].t
                k == Sk(evs[j].sk)
            IN k.buf.kind = "one" /\ k.buf.v.cl /\ AppTime(evs[j]) < s =>
                  \A n \in out[x].b.names : \E m \in DOMAIN evs :
                      Sk(evs[m].sk).n = n /\ AppTime(evs[m]) >= AppTime(evs[j]) /\ AppTime(evs[m]) <= s
=============================================================================
