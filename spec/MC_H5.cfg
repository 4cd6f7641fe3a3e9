INIT Init
NEXT Next
INVARIANTS Parents AttrsHang Sized Idem
PROPERTIES Keep KeepA
CHECK_DEADLOCK FALSE
