CONSTANTS U = {"Alpha", "Beta", "No Combo"} MaxV = 4
INIT Init
NEXT Next
INVARIANTS Rule Emit
CHECK_DEADLOCK FALSE
