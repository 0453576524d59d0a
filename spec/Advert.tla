------------------------------- MODULE Advert -------------------------------
(* What an action advertises: it grants a buff (debuff) if under some set of
   conditions it, or a follow-up it then has, carries one.  The value of a buff
   or debuff aspect is here only whether it affects the party. *)
EXTENDS Cond

KeysOf(a) == IF a.kind = "dict" THEN {SetOf(a.o[i].k) : i \in DOMAIN a.o} ELSE {{}}
\* the conditions that matter to an aspect (each variant is selected by its own key)
Carries(a) == \E c \in KeysOf(a) : Has(a, c)
CarriesParty(a) == \E c \in KeysOf(a) : Has(a, c) /\ Val(a, c)

FollowUpsOf(s) == UNION {SetOf(Lst(s.fol, c)) : c \in KeysOf(s.fol)}
GrantsBuff(s) == Carries(s.buf) \/ \E f \in FollowUpsOf(s) : Carries(f.buf)
GrantsDebuff(s) == Carries(s.deb) \/ \E f \in FollowUpsOf(s) : Carries(f.deb)
GrantsPartyBuff(s) == CarriesParty(s.buf) \/ \E f \in FollowUpsOf(s) : CarriesParty(f.buf)
GrantsPartyDebuff(s) == CarriesParty(s.deb) \/ \E f \in FollowUpsOf(s) : CarriesParty(f.deb)
=============================================================================
