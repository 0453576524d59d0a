------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size (TLC's integers have 32 bits) as sequences of
   digits in base 10^4, least significant first, without leading zeros. *)
EXTENDS Integers, Sequences
Base == 10000

RECURSIVE Norm(_)
Norm(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Norm(SubSeq(a, 1, Len(a) - 1))
RECURSIVE Nat2(_)
Nat2(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Nat2(n \div Base)
RECURSIVE ToInt(_)
ToInt(a) == IF a = <<>> THEN 0 ELSE Head(a) + Base * ToInt(Tail(a))

RECURSIVE MulCarry(_, _, _)
MulCarry(a, k, c) == IF a = <<>> THEN Nat2(c)
                     ELSE LET x == Head(a) * k + c IN <<x % Base>> \o MulCarry(Tail(a), k, x \div Base)
MulS(a, k) == IF k = 0 THEN <<>> ELSE MulCarry(a, k, 0)            \* 0 <= k <= 200000

RECURSIVE AddCarry(_, _, _)
AddCarry(a, b, c) ==
    IF a = <<>> /\ b = <<>> THEN Nat2(c)
    ELSE LET x == (IF a = <<>> THEN 0 ELSE Head(a)) + (IF b = <<>> THEN 0 ELSE Head(b)) + c
         IN <<x % Base>> \o AddCarry(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), x \div Base)
Add(a, b) == AddCarry(a, b, 0)

RECURSIVE SubBorrow(_, _, _)
SubBorrow(a, b, c) ==
    IF a = <<>> THEN <<>>
    ELSE LET x == Head(a) - (IF b = <<>> THEN 0 ELSE Head(b)) - c
         IN <<x % Base>> \o SubBorrow(Tail(a), IF b = <<>> THEN b ELSE Tail(b), IF x < 0 THEN 1 ELSE 0)
Sub(a, b) == Norm(SubBorrow(a, b, 0))                              \* a >= b

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] > b[i] THEN 1 ELSE IF a[i] < b[i] THEN -1 ELSE CmpFrom(a, b, i - 1)
Cmp(a, b) == IF Len(a) > Len(b) THEN 1 ELSE IF Len(a) < Len(b) THEN -1 ELSE CmpFrom(a, b, Len(a))
Leq(a, b) == Cmp(a, b) <= 0
Dist(a, b) == IF Leq(a, b) THEN Sub(b, a) ELSE Sub(a, b)

RECURSIVE Mul(_, _)
Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
             ELSE LET r == Mul(a, Tail(b)) IN Add(MulS(a, Head(b)), IF r = <<>> THEN r ELSE <<0>> \o r)

RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, k, i, r, q) == IF i = 0 THEN [q |-> Norm(q), r |-> r]
                          ELSE LET x == r * Base + a[i] IN DivFrom(a, k, i - 1, x % k, <<x \div k>> \o q)
DivS(a, k) == DivFrom(a, k, Len(a), 0, <<>>)                       \* 1 <= k <= 200000
=============================================================================
