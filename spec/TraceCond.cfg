INIT Init
NEXT Next
INVARIANTS Spec2 Report
CHECK_DEADLOCK FALSE
