------------------------------ MODULE TraceStat ------------------------------
(* Tables of the stat-derived values recorded from the implementation: S.L the
   level's constants, S.k the function, S.rows <<arguments .., value>>. *)
EXTENDS Damage, Json, IOUtils
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.VSCEN))
Scen == TLCGet(7)
ASSUME Scen = Scen
VARIABLES tid
Init == tid \in DOMAIN Scen
Next == FALSE /\ UNCHANGED tid
S == Scen[tid]
L == S.L
F(r) == CASE S.k = "crit-rate"  -> CritRate(L, r[1])
          [] S.k = "crit-bonus" -> CritBonus(L, r[1])
          [] S.k = "dh-rate"    -> DhRate(L, r[1])
          [] S.k = "det"        -> Det(L, r[1])
          [] S.k = "tenacity"   -> Tnc(L, r[1])
          [] S.k = "speed"      -> Spd(L, r[1])
          [] S.k = "ap"         -> AP(L, r[1], FALSE)
          [] S.k = "ap-tank"    -> AP(L, r[1], TRUE)
          [] S.k = "det-dh"     -> DetDh(L, r[1], r[2])
          [] S.k = "wd"         -> WD(L, r[1], r[2])
          [] S.k = "auto"       -> AutoMult(L, r[1], r[2], r[3])
          [] S.k = "time"       -> SpeedTime(L, r[1], r[2])
Wrong == {i \in DOMAIN S.rows : S.rows[i][Len(S.rows[i])] # F(S.rows[i])}
\* of the values themselves
TimesOk == S.k = "time" =>
    \A i \in DOMAIN S.rows : LET r == S.rows[i] IN
        /\ r[3] % 10 = 0
        /\ (r[2] = L.sub /\ r[1] % 10 = 0 => r[3] = r[1])
        /\ (i > 1 => LET q == S.rows[i - 1] IN (q[1] = r[1] /\ q[2] <= r[2]) => r[3] <= q[3])
Report == PrintT(<<"V", tid, (IF Wrong = {} THEN {} ELSE {S.k}) \cup (IF TimesOk THEN {} ELSE {"time-steps"})>>)
=============================================================================
