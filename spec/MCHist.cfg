INIT Init
NEXT Next
INVARIANTS Emit SeenWithin SeenExactly Selected DebuffsOfTarget ComboRule NoRulesNeverFail Bounded GoneAfterExpiry SpendsOnly Windows
CHECK_DEADLOCK FALSE
