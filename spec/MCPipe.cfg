INIT TInit
NEXT TNext
INVARIANT Report
INVARIANT SeqLegal
INVARIANT SnapFirst
INVARIANT TicksExact
INVARIANT AutosLegal
INVARIANT DownEmpty
INVARIANT StartsAtZero
INVARIANT OnePerTarget
INVARIANT CarriesOnlyGranted
INVARIANT CarriesAllGranted
INVARIANT ClearedGone
CHECK_DEADLOCK FALSE
