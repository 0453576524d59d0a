-------------------------------- MODULE MCBig --------------------------------
(* The arithmetic of BigNat agrees with the built-in integers. *)
EXTENDS BigNat, TLC
CONSTANT Vals, Ks
VARIABLES a, b
Init == a \in Vals /\ b \in Vals
Next == FALSE /\ UNCHANGED <<a, b>>
Inv == /\ ToInt(Nat2(a)) = a /\ Norm(Nat2(a)) = Nat2(a)
       /\ Add(Nat2(a), Nat2(b)) = Nat2(a + b)
       /\ (a >= b => Sub(Nat2(a), Nat2(b)) = Nat2(a - b))
       /\ Cmp(Nat2(a), Nat2(b)) = IF a > b THEN 1 ELSE IF a < b THEN -1 ELSE 0
       /\ \A k \in Ks : LET d == DivS(Nat2(a), k) IN d.q = Nat2(a \div k) /\ d.r = a % k
       /\ (a <= 200000 => MulS(Nat2(b), a) = Mul(Nat2(a), Nat2(b)))
       /\ \A k \in Ks : LET d == DivS(Mul(Nat2(a), Nat2(k)), k) IN d.q = Nat2(a) /\ d.r = 0
       /\ \A k \in Ks : LET p == MulS(Nat2(a), k) IN Cmp(p, Nat2(a)) >= 0 \/ a = 0
       /\ Mul(Nat2(a), Nat2(b)) = Mul(Nat2(b), Nat2(a))
       /\ Mul(Add(Nat2(a), Nat2(b)), Nat2(b)) = Add(Mul(Nat2(a), Nat2(b)), Mul(Nat2(b), Nat2(b)))
=============================================================================
