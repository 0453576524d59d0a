-------------------------------- MODULE Combo --------------------------------
(* Combo memory: group -> [t, n], the last successful action of the group.
   A combo rule is [acts, grp, auto, brk]; brks is << [g, by] >>: group g is
   forgotten when an action of one of the groups `by` is used. *)
EXTENDS Prim

ComboWindow == 30000
NoLast == [t |-> NINF, n |-> ""]

Succeeds(mem, t, r, force) ==
    \/ r.auto \/ force \/ r.acts = <<>>
    \/ LET l == Get(mem, r.grp, NoLast)
       IN l.n # "" /\ l.t + ComboWindow >= t /\ IsIn(l.n, r.acts)

Broken(brks, g) == {b.g : b \in {x \in SetOf(brks) : IsIn(g, x.by)}}

StepRule(mem, t, r, ok, name, brks) ==
    LET m1 == Upd(mem, r.grp, IF ok THEN [t |-> t, n |-> name] ELSE NoLast)
        B  == Broken(brks, r.grp)
    IN [g \in DOMAIN m1 \cup B |-> IF g \in B THEN NoLast ELSE m1[g]]

\* result: [m |-> new memory, ok |-> all rules succeeded]
ComboUse(mem, t, rules, force, name, brks) ==
    LET F(acc, r) == IF r.brk THEN [acc EXCEPT !.m = Empty]
                     ELSE LET s == Succeeds(acc.m, t, r, force)
                          IN [m |-> StepRule(acc.m, t, r, s, name, brks), ok |-> acc.ok /\ s]
    IN Fold(F, [m |-> mem, ok |-> TRUE], rules)
=============================================================================
