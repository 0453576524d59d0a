------------------------------ MODULE Channel -------------------------------
(* Channelling: at most one current channel [on, s, dur, al, u]; wins is the
   sequence of closed windows <<start, end>>. *)
EXTENDS Prim

NoChan == [on |-> FALSE, s |-> 0, dur |-> 0, al |-> <<>>, u |-> 0]
NewChan == [cur |-> NoChan, wins |-> <<>>]

Close(c, t) == [cur |-> NoChan,
                wins |-> Append(c.wins, <<c.cur.s, Min2(Plus(c.cur.s, c.cur.dur), t)>>)]

\* a press: wait = it is a wait action; has, spec = its channel, if any
ChanPress(c, t, name, wait, has, spec) ==
    IF wait THEN c
    ELSE IF has THEN
        LET c1 == IF c.cur.on THEN Close(c, t) ELSE c
        IN [c1 EXCEPT !.cur = [on |-> TRUE, s |-> t, dur |-> spec.dur, al |-> spec.al, u |-> spec.u]]
    ELSE IF ~c.cur.on THEN c
    ELSE IF IsIn(name, c.cur.al) /\ (c.cur.u >= INF \/ c.cur.u - 1 > 0)
         THEN [c EXCEPT !.cur.u = IF @ >= INF THEN INF ELSE @ - 1]
         ELSE Close(c, t)

ChanEnd(c) == IF c.cur.on THEN Close(c, INF) ELSE c
=============================================================================
