INIT Init
NEXT Next
INVARIANTS Unitary Inverse Trace0 Herm0 Prod ConjConj
CHECK_DEADLOCK FALSE
