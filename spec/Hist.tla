-------------------------------- MODULE Hist --------------------------------
(* Histories of operations on the four state-keeping parts of the system:
   status effects, combo memory, job resources and channels.

   An operation is a record with k in
     "q"  which effects reach action sk, used on target tg, at time t
     "a"  action sk applies its effects at time t + off to the targets tgs
     "c"  action sk is used: do its combo rules succeed
     "r"  action sk changes job resources at time t + off
     "g"  which resources does action sk see at time t
     "h"  action sk is pressed: channels start and end
     "w"  end of the history: which channel windows were there
   c: conditions of the use, f: forces combos.  A world W has the actions sk,
   the priority list prio, the resource settings res and the combo breakers
   brks.  Do yields the next state and what the system answers. *)
EXTENDS Status, Combo, Resource, Channel, Cond

NewState(W) == [trk |-> NewTrk, mem |-> Empty, res |-> NewRes(W.res), ch |-> NewChan]

NoOut == [k |-> "none"]

Do(W, st, op, t) ==
    LET sk == W.sk[op.sk]
        C  == SetOf(op.c)
        act == [n |-> sk.n, deny |-> sk.deny]
    IN CASE op.k = "q" ->
            LET k0 == TrkExpire(st.trk, t)
                B  == Accepted(k0.b, t, act, W.prio)
                D  == Accepted(Deb(k0, op.tg), t, act, W.prio)
                bad == Conflict(k0.b, B) \/ Conflict(Deb(k0, op.tg), D)
            IN IF bad THEN [st |-> st, out |-> [k |-> "rejected"]]
               ELSE [st |-> [st EXCEPT !.trk = [b |-> Used(k0.b, B),
                                                d |-> Upd(k0.d, op.tg, Used(Deb(k0, op.tg), D))]],
                     out |-> [k |-> "q", b |-> Totals(k0.b, B), d |-> Totals(Deb(k0, op.tg), D),
                              bc |-> CondsOf(k0.b, B), dc |-> CondsOf(Deb(k0, op.tg), D)]]
         [] op.k = "a" ->
            LET k0 == TrkExpire(st.trk, t)
                k1 == IF Has(sk.buf, C) THEN TrkBuff(k0, t + op.off, sk.n, Val(sk.buf, C)) ELSE k0
                k2 == IF Has(sk.deb, C) THEN TrkDebuff(k1, t + op.off, sk.n, Val(sk.deb, C), op.tgs) ELSE k1
            IN [st |-> [st EXCEPT !.trk = k2], out |-> NoOut]
         [] op.k = "c" ->
            LET r == ComboUse(st.mem, t, Lst(sk.cmb, C), op.f, sk.n, W.brks)
            IN [st |-> [st EXCEPT !.mem = r.m], out |-> [k |-> "c", ok |-> r.ok]]
         [] op.k = "r" -> [st |-> [st EXCEPT !.res = ResAdd(@, t + op.off, Lst(sk.jr, C))], out |-> NoOut]
         [] op.k = "g" -> [st |-> st, out |-> [k |-> "g", c |-> ResConds(st.res, W.res, t, sk.n)]]
         [] op.k = "h" -> [st |-> [st EXCEPT !.ch = ChanPress(@, t, sk.n, sk.wait, Has(sk.chan, C),
                                                 IF Has(sk.chan, C) THEN Val(sk.chan, C) ELSE NoChan)],
                           out |-> NoOut]
         [] OTHER -> [st |-> st, out |-> [k |-> "w", w |-> ChanEnd(st.ch).wins]]
=============================================================================
