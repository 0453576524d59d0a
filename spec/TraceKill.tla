------------------------------ MODULE TraceKill ------------------------------
(* Kill time estimates recorded from the implementation.  S.ins: the instances
   of all rotations [t, lo, hi] (damage between lo and hi), S.ts the times
   returned, S.cum the cumulative damage per sample, S.kt the kill times
   returned (ms; NONE: missing), S.n the number of samples, S.hp. *)
EXTENDS Kill, Json, IOUtils
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.VSCEN))
Scen == TLCGet(7)
ASSUME Scen = Scen
VARIABLES tid
Init == tid \in DOMAIN Scen
Next == FALSE /\ UNCHANGED tid
S == Scen[tid]
Rows == DOMAIN S.ts
TimesOk == /\ SameBag(S.ts, [i \in DOMAIN S.ins |-> S.ins[i].t])
           /\ \A i \in Rows : i > 1 => S.ts[i - 1] <= S.ts[i]
Dmg(c, i) == c[i] - (IF i = 1 THEN 0 ELSE c[i - 1])
At(t) == {i \in DOMAIN S.ins : S.ins[i].t = t}
RECURSIVE SumF(_, _)
SumF(F(_), X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN F(x) + SumF(F, X \ {x})
\* each row is the damage of an instance of its time, all of a time together those of all
RowsOk(c) == /\ Len(c) = Len(S.ts)
             /\ \A i \in Rows : \E j \in At(S.ts[i]) : S.ins[j].lo <= Dmg(c, i) /\ Dmg(c, i) <= S.ins[j].hi
             /\ \A t \in {S.ts[i] : i \in Rows} :
                   LET R == {i \in Rows : S.ts[i] = t}
                       F(i) == Dmg(c, i)  Lo(j) == S.ins[j].lo  Hi(j) == S.ins[j].hi
                       d == SumF(F, R)
                   IN SumF(Lo, At(t)) <= d /\ d <= SumF(Hi, At(t))
Hits(c) == [i \in Rows |-> [t |-> S.ts[i], d |-> Dmg(c, i)]]
Want == LET k == [s \in DOMAIN S.cum |-> KillTime(Hits(S.cum[s]), S.hp)]
            hit == SelectSeq(k, LAMBDA x : x # NONE)
        IN hit \o [i \in 1..(Len(k) - Len(hit)) |-> NONE]
\* S.mean: of a rotation with one limit break of a declared mean d, ten times the
\* average over 4800 samples (8 standard deviations: d * 5% / Sqrt(3) / Sqrt(4800) * 8 = d / 300)
MeanOk == \A i \in DOMAIN S.mean : LET e == S.mean[i].m10 - 10 * S.mean[i].d IN
             (IF e < 0 THEN -e ELSE e) <= S.mean[i].d \div 30 + 10
Differs == IF S.err # "" THEN {"failed"} ELSE
           (IF TimesOk THEN {} ELSE {"times"})
      \cup (IF Len(S.cum) = S.n /\ \A s \in DOMAIN S.cum : RowsOk(S.cum[s]) THEN {} ELSE {"cumulative-damage"})
      \cup (IF Len(S.cum) = S.n /\ Len(S.kt) = S.n /\ S.kt = Want THEN {} ELSE {"kill-times"})
      \cup (IF MeanOk THEN {} ELSE {"mean-damage"})
Report == PrintT(<<"V", tid, Differs>>)
=============================================================================
