INIT Init
NEXT Next
INVARIANTS Ends Even Mirror
CHECK_DEADLOCK FALSE
