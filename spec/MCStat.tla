------------------------------- MODULE MCStat -------------------------------
(* The step functions of the specification, for every value of a stat. *)
EXTENDS Damage
L90 == [div |-> 1900, main |-> 390, sub |-> 400, fap |-> 195, fapt |-> 156, ten |-> 100, dh |-> 550, det |-> 140, spc |-> 130, crit |-> <<200, 50, 400>>]
L100 == [div |-> 2780, main |-> 440, sub |-> 420, fap |-> 237, fapt |-> 190, ten |-> 112, dh |-> 550, det |-> 140, spc |-> 130, crit |-> <<200, 50, 400>>]
CONSTANTS Max
Times == {0, 10, 650, 1500, 2000, 2500, 3500, 5000, 60000}
VARIABLES lv, s
Init == lv \in {L90, L100} /\ s = lv.sub
Next == s < Max /\ s' = s + 1 /\ UNCHANGED lv
Steps(f) == f[2] - f[1] \in {0, 1}      \* each function rises in steps of one
Inv == /\ \A t \in Times : /\ SpeedTime(lv, t, s) % 10 = 0
                           /\ SpeedTime(lv, t, lv.sub) = t
                           /\ SpeedTime(lv, t, s + 1) <= SpeedTime(lv, t, s)
                           /\ SpeedTime(lv, t, s) >= 0
       /\ Steps(<<CritRate(lv, s), CritRate(lv, s + 1)>>) /\ Steps(<<DhRate(lv, s), DhRate(lv, s + 1)>>)
       /\ Steps(<<Det(lv, s), Det(lv, s + 1)>>) /\ Steps(<<Tnc(lv, s), Tnc(lv, s + 1)>>) /\ Steps(<<Spd(lv, s), Spd(lv, s + 1)>>)
       /\ AP(lv, s + 1, FALSE) >= AP(lv, s, FALSE) /\ (s < lv.main \/ AP(lv, s, TRUE) <= AP(lv, s, FALSE))
       /\ CritBonus(lv, s) - CritRate(lv, s) = 350
       /\ DetDh(lv, s, lv.sub) = Det(lv, s)
=============================================================================
