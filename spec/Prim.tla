-------------------------------- MODULE Prim --------------------------------
(* Shared primitives.  Times are integers in ms; INF stands for "never ends" /
   "unlimited".  NONE is the absent time.  JSON input (see harness/scenario.py)
   carries sets as arrays, so SetOf turns them into sets. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

INF  == 1000000000
NINF == -1000000000
NONE == -999999999

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y

\* saturating addition: INF + x = INF
Plus(a, b) == IF a >= INF \/ b >= INF THEN INF ELSE a + b

SetOf(s) == {s[i] : i \in DOMAIN s}
IsIn(x, s) == \E i \in DOMAIN s : s[i] = x

\* left fold over a sequence:  Op(acc, element)
RECURSIVE FoldFrom(_, _, _, _)
FoldFrom(Op(_, _), acc, s, i) ==
    IF i > Len(s) THEN acc ELSE FoldFrom(Op, Op(acc, s[i]), s, i + 1)
Fold(Op(_, _), acc, s) == FoldFrom(Op, acc, s, 1)

RECURSIVE SumSeqFrom(_, _)
SumSeqFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeqFrom(s, i + 1)
SumSeq(s) == SumSeqFrom(s, 1)

\* the elements of a finite set as a sequence, in unspecified order
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>>
               ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})

\* stable insertion sort by an integer key
RECURSIVE InsertByKey(_, _, _)
InsertByKey(Key(_), x, s) ==
    IF s = <<>> THEN <<x>>
    ELSE IF Key(Head(s)) > Key(x) THEN <<x>> \o s
    ELSE <<Head(s)>> \o InsertByKey(Key, x, Tail(s))
StableSort(Key(_), s) == LET F(acc, x) == InsertByKey(Key, x, acc) IN Fold(F, <<>>, s)

\* multiset (bag) equality of two sequences
Count(x, s) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in SetOf(a) \cup SetOf(b) : Count(x, a) = Count(x, b)

\* functions with a growing domain
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Keep(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
Empty == [x \in {} |-> 0]

Floor10(x) == 10 * (x \div 10)
=============================================================================
