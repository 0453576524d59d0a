----------------------------- MODULE MCLibrary -----------------------------
(* All tables of up to three patches out of five, listed in any order, asked
   for every version. *)
EXTENDS Library
V == {655, 700, 701, 705, 710}
VARIABLES e, v
Init == /\ \E n \in 0..3 : \E f \in [1..n -> V] :
              /\ \A i, j \in 1..n : i # j => f[i] # f[j]
              /\ e = [i \in 1..n |-> [v |-> f[i], x |-> f[i]]]
        /\ v \in V \cup {600, 703, 720}
Next == FALSE /\ UNCHANGED <<e, v>>
\* the declarative reading: an entry not newer, with no entry in between
Right == IF Exists(e, v)
         THEN /\ Newest(e, v) <= v
              /\ ~\E i \in DOMAIN e : e[i].v > Newest(e, v) /\ e[i].v <= v
         ELSE \A i \in DOMAIN e : e[i].v > v
\* adding a newer entry than asked for changes nothing
Future == Exists(e, v) => Newest(Append(e, [v |-> v + 1, x |-> v + 1]), v) = Newest(e, v)
\* an entry for exactly the version asked for wins
Exact == (\E i \in DOMAIN e : e[i].v = v) => Newest(e, v) = v
=============================================================================
