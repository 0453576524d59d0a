------------------------------ MODULE MCAdvert ------------------------------
(* Facts about advertising, over all actions with up to two variants of each
   aspect and up to two follow-ups. *)
EXTENDS Advert
Aspects == {[kind |-> "none"]} \cup {[kind |-> "one", v |-> p] : p \in BOOLEAN}
    \cup {[kind |-> "dict", o |-> <<[k |-> <<>>, h |-> h0, v |-> p0], [k |-> <<"A">>, h |-> h1, v |-> p1]>>] :
            h0, h1, p0, p1 \in BOOLEAN}
Leaf == {[buf |-> b, deb |-> [kind |-> "none"]] : b \in Aspects}
Lists == {<<>>} \cup {<<f>> : f \in Leaf} \cup {<<f, g>> : f, g \in Leaf}
Few == {<<>>} \cup {<<f>> : f \in Leaf}
VARIABLES s
Init == \E b \in Aspects :
            \/ \E l \in Lists : s = [buf |-> b, deb |-> [kind |-> "none"], fol |-> [kind |-> "one", v |-> l]]
            \/ \E l, m \in Few : s = [buf |-> b, deb |-> [kind |-> "none"],
                     fol |-> [kind |-> "dict", o |-> <<[k |-> <<>>, h |-> TRUE, v |-> l], [k |-> <<"B">>, h |-> TRUE, v |-> m]>>]]
Next == FALSE /\ UNCHANGED s
\* stated over the actual conditions a press can have
Conds == SUBSET {"A", "B"}
Seen == \E c \in Conds : Has(s.buf, c) \/ \E i \in DOMAIN Lst(s.fol, c) : \E c2 \in Conds : Has(Lst(s.fol, c)[i].buf, c2)
SeenParty == \E c \in Conds : (Has(s.buf, c) /\ Val(s.buf, c))
                \/ \E i \in DOMAIN Lst(s.fol, c) : \E c2 \in Conds :
                      LET f == Lst(s.fol, c)[i] IN Has(f.buf, c2) /\ Val(f.buf, c2)
Truthful == GrantsBuff(s) = Seen /\ GrantsPartyBuff(s) = SeenParty
PartyIsBuff == GrantsPartyBuff(s) => GrantsBuff(s)
OnlyBuffs == ~GrantsDebuff(s) /\ ~GrantsPartyDebuff(s)
=============================================================================
