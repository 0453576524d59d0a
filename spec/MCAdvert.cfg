INIT Init
NEXT Next
INVARIANT Truthful PartyIsBuff OnlyBuffs
CHECK_DEADLOCK FALSE
