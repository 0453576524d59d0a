------------------------------ MODULE TraceLib ------------------------------
(* Libraries recorded from the implementation.  Kinds of scenarios:
   "lib"   S.builds: libraries [v, l, got] in the order built, recorded after
           all were built; got is << [j, n, x] >>.  Wanted: exactly the entries
           of the table VLIB valid for v and l ("": not there from then on).
   "synth" the same with S.tab as the table
   "ops"   S.ops: calls [op, j, n, x, r] on one library with their results r
           (op "set": j is the kind of data - priority, resource, combo breakers)
   "vals"  S.vals: [e, v, r] lookups of versioned values (r = "": nothing)
   "ex"    S.tab: example rotations [k, l, s, e], S.got the keys offered *)
EXTENDS Library, Json, IOUtils
ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.VSCEN))
ASSUME TLCSet(8, ndJsonDeserialize(IOEnv.VLIB))
Scen == TLCGet(7)
Tab == TLCGet(8)
ASSUME Scen = Scen /\ Tab = Tab
VARIABLES tid
Init == tid \in DOMAIN Scen
Next == FALSE /\ UNCHANGED tid
S == Scen[tid]

Want(tab, b) == LET I == {i \in DOMAIN tab : tab[i].l = b.l /\ Exists(tab[i].e, b.v)}
                IN {<<tab[i].j, tab[i].n, Newest(tab[i].e, b.v)>> : i \in {i \in I : Newest(tab[i].e, b.v) # ""}}
Got(b) == {<<b.got[i].j, b.got[i].n, b.got[i].x>> : i \in DOMAIN b.got}
Libs(tab) == IF \A i \in DOMAIN S.builds : Got(S.builds[i]) = Want(tab, S.builds[i])
             THEN {} ELSE {"library"}
\* for the report: where they differ
Diff(tab) == UNION {{<<S.builds[i].v, S.builds[i].l>> \o x :
                      x \in (Got(S.builds[i]) \ Want(tab, S.builds[i])) \cup (Want(tab, S.builds[i]) \ Got(S.builds[i]))} :
                    i \in DOMAIN S.builds}

Step(a, o) ==
    CASE o.op = "job" -> [lib |-> IF o.j \in DOMAIN a.lib THEN a.lib ELSE Upd(a.lib, o.j, Empty), cur |-> o.j, own |-> a.own, ok |-> a.ok]
      [] o.op = "add" -> IF Known(a.lib, a.cur, o.n) THEN [a EXCEPT !.ok = @ /\ o.r = "rejected"]
                         ELSE [a EXCEPT !.lib = Define(@, a.cur, o.n, o.x), !.ok = @ /\ o.r = "ok"]
      [] o.op = "get" -> [a EXCEPT !.ok = @ /\ o.r = (IF Known(a.lib, o.j, o.n) THEN a.lib[o.j][o.n] ELSE "unknown")]
      [] o.op = "has" -> [a EXCEPT !.ok = @ /\ o.r = (IF Known(a.lib, o.j, o.n) THEN "yes" ELSE "no")]
      [] o.op = "has-job" -> [a EXCEPT !.ok = @ /\ o.r = (IF o.j \in DOMAIN a.lib THEN "yes" ELSE "no")]
      [] o.op = "jobs" -> [a EXCEPT !.ok = @ /\ SetOf(o.r) = DOMAIN a.lib /\ Len(o.r) = Cardinality(DOMAIN a.lib)]
      \* what belongs to a job besides its actions: replaced by the latest setting of the same name
      [] o.op = "set" -> [a EXCEPT !.own = Upd(@, <<a.cur, o.j, o.n>>, o.x)]
      [] o.op = "own" -> [a EXCEPT !.ok = @ /\ {<<o.r[i].k, o.r[i].n, o.r[i].x>> : i \in DOMAIN o.r}
                                                = {<<k[2], k[3], a.own[k]>> : k \in {k \in DOMAIN a.own : k[1] = o.j}}]
      [] o.op = "names" -> [a EXCEPT !.ok = @ /\ SetOf(o.r) = DOMAIN a.lib[o.j] /\ Len(o.r) = Cardinality(DOMAIN a.lib[o.j])]
Ops == IF Fold(Step, [lib |-> NewLib, cur |-> "", own |-> Empty, ok |-> TRUE], S.ops).ok THEN {} ELSE {"calls"}

Vals == IF \A i \in DOMAIN S.vals :
              LET c == S.vals[i] IN c.r = IF Exists(c.e, c.v) THEN Newest(c.e, c.v) ELSE ""
        THEN {} ELSE {"versioned-value"}

Offered == IF SetOf(S.got) = {S.tab[i].k : i \in {i \in DOMAIN S.tab : S.tab[i].l = S.l /\ Valid(S.tab[i].s, S.tab[i].e, S.v)}}
           THEN {} ELSE {"examples-offered"}

Differs == CASE S.kind = "lib" -> Libs(Tab)
             [] S.kind = "synth" -> Libs(S.tab)
             [] S.kind = "ops" -> Ops
             [] S.kind = "vals" -> Vals
             [] S.kind = "ex" -> Offered
Report == PrintT(<<"V", tid, Differs>>)
=============================================================================
