CONSTANT Names = {1, 2}
INIT Init
NEXT Next
INVARIANTS BlankInvariant Rect RoundTrip Prec
CHECK_DEADLOCK FALSE
