CONSTANTS U = {"Alpha", "Beta", "No Combo", "Target 2"} MaxV = 4
INIT Init
NEXT Next
INVARIANTS Rule Emit
CHECK_DEADLOCK FALSE
