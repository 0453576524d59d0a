------------------------------- MODULE MCKill -------------------------------
(* All fights of up to N hits: the kill time does not depend on the order of
   simultaneous hits and is the first moment at which the damage suffices. *)
EXTENDS Kill
CONSTANTS N, T, D, HP
VARIABLES hits, hp, f
vars == <<hits, hp, f>>
Init == /\ hits \in UNION {[1..n -> [t : T, d : D]] : n \in 0..N} /\ hp \in HP
        /\ f = Start(hits)
Next == \E i \in NextHits(hits, f) : f' = Hit(hits, hp, f, i) /\ UNCHANGED <<hits, hp>>
Killed == f.left = {} => f.at = KillTime(hits, hp)
Early  == f.at # NONE => f.at = KillTime(hits, hp)
Reaches == (f.at # NONE) <=> f.cum >= hp
=============================================================================
