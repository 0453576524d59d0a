------------------------------- MODULE MCHist -------------------------------
(* Every history of up to D operations over the menu of a small world, with
   the declared rules stated once more, as invariants over the history itself
   (not over the state the rules are implemented with).  Complete histories are
   printed, with the answers, for replay against the real trackers. *)
EXTENDS Hist, Json, IOUtils

ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.VSCEN))
Worlds == TLCGet(7)
ASSUME Worlds = Worlds

VARIABLES wid, now, st, h
vars == <<wid, now, st, h>>
W == Worlds[wid]

Init == wid \in DOMAIN Worlds /\ now = W.t0 /\ st = NewState(Worlds[wid]) /\ h = <<>>

Next == \E m \in DOMAIN W.menu, d \in DOMAIN W.dts :
            LET op == W.menu[m]
                t  == now + W.dts[d]
                r  == Do(W, st, op, t)
            IN /\ Len(h) < W.depth
               /\ (Len(h) > 0 => h[Len(h)].out.k # "rejected")   \* nothing is promised after that
               /\ (op.k = "w" => Len(h) = W.depth - 1)
               /\ (Len(h) = W.depth - 1 => op.k \in SetOf(W.ends))
               /\ now' = t /\ st' = r.st
               /\ h' = Append(h, [m |-> m, t |-> t, out |-> r.out])
               /\ UNCHANGED wid

Emit == (Len(h) = W.depth \/ (Len(h) > 0 /\ h[Len(h)].out.k = "rejected")) => PrintT("H " \o ToJson([w |-> wid, h |-> h]))

\* ---------------------------------------------------------------- invariants
Op(j) == W.menu[h[j].m]
Sk(j) == W.sk[Op(j).sk]
BufSpec(j) == Val(Sk(j).buf, SetOf(Op(j).c))
At(j) == h[j].t + Op(j).off
Clears(j) == Op(j).k = "a" /\ Has(Sk(j).buf, SetOf(Op(j).c)) /\ BufSpec(j).cl
Applies(j, n) == Op(j).k = "a" /\ Sk(j).n = n /\ Has(Sk(j).buf, SetOf(Op(j).c))
Ends(j, n) == /\ Op(j).k = "a"
              /\ \/ Has(Sk(j).buf, SetOf(Op(j).c)) /\ IsIn(n, BufSpec(j).xp)
                 \/ Has(Sk(j).deb, SetOf(Op(j).c)) /\ IsIn(n, Val(Sk(j).deb, SetOf(Op(j).c)).xp)

(* C03: a buff seen at a query was applied before, its last application is at
   most its maximum duration (or its duration, for the first one) ago, it was
   not cleared since, and it was not seen more often than charges were given. *)
SeenWithin ==
    \A j \in DOMAIN h : Op(j).k = "q" /\ h[j].out.k = "q" =>
        \A n \in h[j].out.b.names :
            LET A == {i \in 1..(j-1) : Applies(i, n) /\ At(i) <= h[j].t}
                cl == {i \in 1..(j-1) : Clears(i)}
                since == IF cl = {} THEN 0 ELSE MaxS(cl)
                live == {i \in A : i >= since}
            IN /\ live # {}
               /\ \E i \in live : h[j].t <= At(i) + Max2(BufSpec(i).mdur, BufSpec(i).dur)
               /\ \E i \in live : ~BufSpec(i).eo
               /\ LET seen == {i \in 1..j : Op(i).k = "q" /\ h[i].out.k = "q" /\ n \in h[i].out.b.names /\ i > since}
                      F(i) == BufSpec(i).uses
                  IN (\A i \in live : BufSpec(i).uses < INF) => Cardinality(seen) <= SumOver(F, live, 0)

(* C03: an unlimited, unrestricted buff applied exactly once and never ended or
   cleared is seen by every query in its closed interval, and by no other. *)
SeenExactly ==
    \A j \in DOMAIN h : Op(j).k = "q" /\ h[j].out.k = "q" =>
        \A i \in 1..(j-1) :
            LET n == Sk(i).n
            IN (/\ Op(i).k = "a" /\ Has(Sk(i).buf, SetOf(Op(i).c))
                /\ {x \in DOMAIN h : x <= j /\ Applies(x, n)} = {i}
                /\ ~\E x \in DOMAIN h : x <= j /\ (Clears(x) \/ Ends(x, n))
                /\ BufSpec(i).uses >= INF /\ ~BufSpec(i).alh /\ ~BufSpec(i).eo
                /\ ~IsIn(n, Sk(j).deny) /\ ~IsIn(n, W.prio))
               => (n \in h[j].out.b.names <=> (At(i) <= h[j].t /\ h[j].t <= At(i) + BufSpec(i).dur))

(* C04: selection by exclusion, restriction and priority. *)
Selected ==
    \A j \in DOMAIN h : Op(j).k = "q" /\ h[j].out.k = "q" =>
        \A V \in {h[j].out.b.names, h[j].out.d.names} :
            /\ \A n \in V : ~IsIn(n, Sk(j).deny)
            /\ Cardinality({n \in V : IsIn(n, W.prio)}) <= 1
DebuffsOfTarget ==
    \A j \in DOMAIN h : Op(j).k = "q" /\ h[j].out.k = "q" =>
        \A n \in h[j].out.d.names : \E i \in 1..(j-1) :
            Op(i).k = "a" /\ Sk(i).n = n /\ Has(Sk(i).deb, SetOf(Op(i).c)) /\ IsIn(Op(j).tg, Op(i).tgs)

(* C10: success is decided by the last use that touched the group. *)
Touch(i, r) == \* the effect of use i on group r.grp: "own", "other" or "no"
    LET rules == Lst(Sk(i).cmb, SetOf(Op(i).c))
        br == {x \in DOMAIN rules : rules[x].brk}
        ow == {x \in DOMAIN rules : ~rules[x].brk /\ rules[x].grp = r.grp}
        fo == {x \in DOMAIN rules : ~rules[x].brk /\ r.grp \in Broken(W.brks, rules[x].grp)}
    IN IF Op(i).k # "c" \/ br \cup ow \cup fo = {} THEN "no"
       ELSE IF ow # {} /\ (\A x \in br \cup fo : x < MaxS(ow)) THEN "own" ELSE "other"
ComboRule ==
    \A j \in DOMAIN h : Op(j).k = "c" /\ Len(Lst(Sk(j).cmb, SetOf(Op(j).c))) = 1 =>
        LET r == Lst(Sk(j).cmb, SetOf(Op(j).c))[1]
            T == {i \in 1..(j-1) : Touch(i, r) # "no"}
            l == MaxS(T)
        IN ~r.brk =>
           (h[j].out.ok <=>
              \/ r.acts = <<>> \/ r.auto \/ Op(j).f
              \/ /\ T # {} /\ Touch(l, r) = "own" /\ IsIn(Sk(l).n, r.acts) /\ h[l].t + 30000 >= h[j].t
                 /\ (Len(Lst(Sk(l).cmb, SetOf(Op(l).c))) = 1 => h[l].out.ok))
NoRulesNeverFail == \A j \in DOMAIN h : Op(j).k = "c" /\ Lst(Sk(j).cmb, SetOf(Op(j).c)) = <<>> => h[j].out.ok

(* C11: amounts stay within bounds, and nothing is left after the expiry. *)
Bounded == \A c \in SetOf(W.res), d \in {0, 1, 1000, 5000, 9000} :
              LET a == Amount(st.res[c.n], c, now + d) IN a >= 0 /\ a <= c.max
GoneAfterExpiry == \A c \in SetOf(W.res) :
              LET s == {x.s : x \in SetOf(st.res[c.n])}
              IN (s # {} /\ c.exp < INF) => Amount(st.res[c.n], c, MaxS(s) + c.exp + 1) = 0
SpendsOnly == \A c \in SetOf(W.res) : (\A x \in SetOf(st.res[c.n]) : x.c <= 0) => Amount(st.res[c.n], c, now + 100) = 0

(* C12: windows are disjoint, in order, start at a channelled press and are no
   longer than it allows. *)
Wins == ChanEnd(st.ch).wins
ChanPresses == {j \in DOMAIN h : Op(j).k = "h" /\ Has(Sk(j).chan, SetOf(Op(j).c)) /\ ~Sk(j).wait}
Windows ==
    /\ Len(Wins) = Cardinality(ChanPresses)
    /\ \A x \in 1..(Len(Wins) - 1) : Wins[x][2] <= Wins[x+1][1]
    /\ \A x \in DOMAIN Wins : \E j \in ChanPresses :
          /\ Wins[x][1] = h[j].t /\ Wins[x][1] <= Wins[x][2]
          /\ Wins[x][2] <= h[j].t + Val(Sk(j).chan, SetOf(Op(j).c)).dur
=============================================================================
