INIT Init
NEXT Next
INVARIANTS Nodes2 Nodes3 Multilinear Line Symmetric2 Symmetric3
CHECK_DEADLOCK FALSE
