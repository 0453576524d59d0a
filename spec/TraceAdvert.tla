----------------------------- MODULE TraceAdvert -----------------------------
(* Flags of actions recorded from the implementation: S.acts[i] is an action
   with the observed flags ob, od, opb, opd. *)
EXTENDS Advert, Json, IOUtils
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.VSCEN))
Scen == TLCGet(7)
ASSUME Scen = Scen
VARIABLES tid
Init == tid \in DOMAIN Scen
Next == FALSE /\ UNCHANGED tid
S == Scen[tid]
Bad(P(_)) == \E i \in DOMAIN S.acts : ~P(S.acts[i])
B(a) == a.ob = GrantsBuff(a)
D(a) == a.od = GrantsDebuff(a)
PB(a) == a.opb = GrantsPartyBuff(a)
PD(a) == a.opd = GrantsPartyDebuff(a)
Differs == (IF Bad(B) THEN {"buff"} ELSE {}) \cup (IF Bad(D) THEN {"debuff"} ELSE {})
      \cup (IF Bad(PB) THEN {"party-buff"} ELSE {}) \cup (IF Bad(PD) THEN {"party-debuff"} ELSE {})
Report == PrintT(<<"V", tid, Differs>>)
=============================================================================
