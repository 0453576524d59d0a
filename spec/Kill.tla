-------------------------------- MODULE Kill --------------------------------
(* The boss is hit by the instances of all rotations in time order, those at
   the same time in any order, until its HP are gone. *)
EXTENDS Prim
\* hits: <<[t, d], ..>> ; the state of the fight: left (indices), cum, at (kill time or NONE)
Start(hits) == [left |-> DOMAIN hits, cum |-> 0, at |-> NONE]
NextHits(hits, f) == {i \in f.left : \A j \in f.left : hits[i].t <= hits[j].t}
Hit(hits, hp, f, i) == LET c == f.cum + hits[i].d IN
    [left |-> f.left \ {i}, cum |-> c, at |-> IF f.at = NONE /\ c >= hp THEN hits[i].t ELSE f.at]
\* stated directly: the first moment up to which enough damage was dealt
UpTo(hits, t) == LET F(acc, h) == acc + (IF h.t <= t THEN h.d ELSE 0) IN Fold(F, 0, hits)
KillTime(hits, hp) == LET T == {hits[i].t : i \in {i \in DOMAIN hits : UpTo(hits, hits[i].t) >= hp}}
                      IN IF T = {} THEN NONE ELSE MinS(T)
=============================================================================
