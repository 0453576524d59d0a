------------------------------ MODULE TraceCond ------------------------------
(* Outcomes of the positional rule recorded from the implementation. *)
EXTENDS Cond, Json, IOUtils
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.VSCEN))
Scen == TLCGet(7)
ASSUME Scen = Scen
VARIABLES tid
Init == tid \in DOMAIN Scen
Next == FALSE /\ UNCHANGED tid
S == Scen[tid]
Want(x) == Positional(S, SetOf(x.c), x.b)
(* stated directly: the outcome found has the given percentage *)
Truthful(x) == LET w == Want(x) IN
    (S.pos # <<>> /\ x.b # NONE /\ x.b # 0 /\ w # SetOf(x.c)) =>
        LET r == S.pos[BestIdx(S.pos, w \ SetOf(S.ign))]
            m == S.pos[BestIdx(S.pos, (SetOf(x.c) \ SetOf(S.ign)) \cup {NoCombo, NoPos})].pot
        IN BonusPct(r.pot, IF r.mp # 0 THEN r.mp ELSE m) = x.b
Spec2 == \A i \in DOMAIN S.cases : Truthful(S.cases[i])
Report == PrintT(<<"V", tid, {ToString(i) : i \in {i \in DOMAIN S.cases : SetOf(S.cases[i].o) # Want(S.cases[i])}}>>)
=============================================================================
