INIT Init
NEXT Next
INVARIANT Right Future Exact
CHECK_DEADLOCK FALSE
