------------------------------ MODULE TraceHist ------------------------------
(* Trace validation of operation histories recorded from the real trackers:
   scenario = world + ops, each with its time and the observed answer. *)
EXTENDS Hist, Json, IOUtils

ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.VSCEN))
Scen == TLCGet(7)
ASSUME Scen = Scen

VARIABLES tid, i, st, bad
vars == <<tid, i, st, bad>>
W == Scen[tid]

RECURSIVE Digits(_, _, _, _)
Digits(r, d, k, acc) == IF k = 0 THEN acc ELSE Digits((r * 10) % d, d, k - 1, acc * 10 + (r * 10) \div d)
Dec6(r) == Digits(r[1] % r[2], r[2], 6, 0) + 1000000 * (r[1] \div r[2])
Near(o, r) == LET x == Dec6(r) IN o - x \in {-1, 0, 1}
SameTotals(o, v) == /\ SetOf(o.names) = v.names /\ Len(o.names) = Cardinality(v.names)
                    /\ o.crit = v.crit /\ o.dh = v.dh /\ o.ms = v.ms /\ o.fc = v.fc /\ o.fg = v.fg
                    /\ o.gc = v.gc /\ o.gd = v.gd
                    /\ Near(o.mult, v.mult) /\ Near(o.msm, v.msm) /\ Near(o.aa, v.aa) /\ Near(o.ha, v.ha)

Differs(o, v) ==
    IF o.k # v.k THEN {v.k \o "-instead-of-" \o o.k}
    ELSE CASE v.k = "q" -> (IF SetOf(o.b.names) # v.b.names \/ SetOf(o.d.names) # v.d.names THEN {"effects"}
                            ELSE IF ~SameTotals(o.b, v.b) \/ ~SameTotals(o.d, v.d) THEN {"totals"}
                            ELSE IF SetOf(o.bc) # v.bc \/ SetOf(o.dc) # v.dc THEN {"conditions"} ELSE {})
           [] v.k = "c" -> IF o.ok = v.ok THEN {} ELSE {"combo"}
           [] v.k = "g" -> IF SetOf(o.c) = v.c THEN {} ELSE {"resources"}
           [] v.k = "w" -> IF o.w = v.w THEN {} ELSE {"channels"}
           [] OTHER -> {}

Init == tid \in DOMAIN Scen /\ i = 0 /\ st = NewState(W) /\ bad = {}
Next == /\ i < Len(W.ops) /\ bad = {}
        /\ LET op == W.ops[i + 1]
               r  == Do(W, st, op, op.t)
           IN st' = r.st /\ bad' = Differs(op.out, r.out)
        /\ i' = i + 1 /\ UNCHANGED tid
Report == (i = Len(W.ops) \/ bad # {}) => PrintT(<<"V", tid, bad>>)
=============================================================================
