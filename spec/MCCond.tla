------------------------------- MODULE MCCond -------------------------------
(* Every table of up to MaxV variants over the conditions U (in every order of
   declaration) and every current set of conditions: which variant is used.
   The rule is checked against its statement (the largest contained condition
   set) and every case is printed for replay. *)
EXTENDS Cond, Json
CONSTANTS U, MaxV
VARIABLES o, c
vars == <<o, c>>
Conds == SUBSET U
Init == o = <<>> /\ c \in SUBSET (U \cup {"Unrelated"})
Next == /\ Len(o) < MaxV
        /\ \E k \in Conds : (\A i \in DOMAIN o : o[i] # k) /\ o' = Append(o, k)
        /\ UNCHANGED c
Tab == [i \in DOMAIN o |-> [k |-> SeqOfSet(o[i])]]
HasDefault == \E i \in DOMAIN o : o[i] = {}
b == BestIdx(Tab, c)
Rule == HasDefault => /\ b # 0 /\ o[b] \subseteq c
                      /\ \A i \in DOMAIN o : o[i] \subseteq c => Cardinality(o[i]) <= Cardinality(o[b])
                      /\ ((\A i \in DOMAIN o : o[i] \subseteq c => o[i] = {}) => o[b] = {})
Emit == HasDefault => PrintT("H " \o ToJson([o |-> o, c |-> c, b |-> b]))
=============================================================================
