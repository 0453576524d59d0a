-------------------------------- MODULE Cond --------------------------------
(* Conditions and the variants of an action.

   An aspect of an action (damage, timing, buff, ...) is
     [kind |-> "none"]                                  -- absent
     [kind |-> "one",  v |-> value]                     -- unconditional
     [kind |-> "dict", o |-> << [k |-> {..}, h |-> BOOLEAN, v |-> value], ... >>]
   where h = FALSE marks a variant that is explicitly "nothing".  *)
EXTENDS Prim

\* The most specific variant: largest condition set contained in the current
\* conditions; among equally large ones the later declared.  0: no match.
BestIdx(o, conds) ==
    LET M == {i \in DOMAIN o : SetOf(o[i].k) \subseteq conds}
        Sz(i) == Cardinality(SetOf(o[i].k))
    IN IF M = {} THEN 0
       ELSE CHOOSE i \in M : \A j \in M : Sz(i) > Sz(j) \/ (Sz(i) = Sz(j) /\ i >= j)

\* does the aspect have a value under these conditions, and which
Has(a, conds) == CASE a.kind = "none" -> FALSE
                   [] a.kind = "one"  -> TRUE
                   [] OTHER -> LET i == BestIdx(a.o, conds) IN i # 0 /\ a.o[i].h
Val(a, conds) == IF a.kind = "one" THEN a.v ELSE a.o[BestIdx(a.o, conds)].v

\* list-valued aspects (combo rules, resource changes, follow-ups)
Lst(a, conds) == CASE a.kind = "none" -> <<>>
                   [] a.kind = "one"  -> a.v
                   [] OTHER -> Val(a, conds)

(* Damage of an action under these conditions, with area drop-off: hits number
   2 to 10 deal the variant's potency reduced by drop thousandths.
   Potencies are in thousandths. *)
MaxTargets == 10
Damage(k, conds) ==
    LET v == Val(k.dmg, conds)
    IN IF k.drop = 0 \/ ~\E j \in 2..MaxTargets : ("Target " \o ToString(j)) \in conds THEN v
       ELSE [v EXCEPT !.pot = (@ \div 1000) * (1000 - k.drop)]

NoCombo == "No Combo"
NoPos   == "No Positional"

\* integer truncation towards zero of 100*(p-m)/p, p > 0
BonusPct(p, m) == IF p >= m THEN (100 * (p - m)) \div p ELSE -((100 * (m - p)) \div p)

(* The table the positional rule looks at: the action's own conditional damage,
   or (only if its damage is not conditional) that of its follow-ups. *)
PosTable(sk) == sk.pos

(* Positional outcome: conditions to add, given the press' bonus percentage
   (NONE if not supplied).  tbl is << [k, pot, mp] >>, mp = 0: no own minimum. *)
Positional(sk, conds, bonus) ==
    LET tbl == PosTable(sk) IN
    IF tbl = <<>> \/ bonus = NONE \/ (\A i \in DOMAIN tbl : ~IsIn(NoPos, tbl[i].k))
    THEN conds
    ELSE IF bonus = 0 THEN conds \cup {NoPos}
    ELSE LET base == conds \ SetOf(sk.ign)
             minIdx == BestIdx(tbl, base \cup {NoCombo, NoPos})
             minPot == tbl[minIdx].pot
             cand == << base, base \cup {NoPos}, base \cup {NoCombo}, base \cup {NoCombo, NoPos} >>
             Pct(c) == LET r == tbl[BestIdx(tbl, c)]
                       IN BonusPct(r.pot, IF r.mp # 0 THEN r.mp ELSE minPot)
             ok == {i \in 1..4 : Pct(cand[i]) = bonus}
         IN IF ok = {} THEN conds ELSE conds \cup cand[MinS(ok)]
=============================================================================
