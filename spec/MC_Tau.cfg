CONSTANT Slots = {1, 2}
INIT Init
NEXT Next
INVARIANT Consistent
CHECK_DEADLOCK FALSE
