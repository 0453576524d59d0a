------------------------------ MODULE Library ------------------------------
(* Versioned data.  A version is a number (7.05 is 705); a versioned value is
   a list of entries [v |-> version it came with, x |-> value], in any order. *)
EXTENDS Prim

Upto(e, v) == {i \in DOMAIN e : e[i].v <= v}
Exists(e, v) == Upto(e, v) # {}
\* the entry of the newest patch not newer than v
Newest(e, v) == LET i == CHOOSE i \in Upto(e, v) : \A j \in Upto(e, v) : e[j].v <= e[i].v IN e[i].x

(* A library: lib[job] is the function from names to actions.  Defining an
   action again and asking for an unknown one fail and change nothing. *)
NewLib == Empty
Define(lib, j, n, x) == Upd(lib, j, Upd(Get(lib, j, Empty), n, x))
Known(lib, j, n) == j \in DOMAIN lib /\ n \in DOMAIN lib[j]

\* validity of an example rotation (stop = NONE: still valid)
Valid(start, stop, v) == start <= v /\ (stop = NONE \/ v <= stop)
=============================================================================
