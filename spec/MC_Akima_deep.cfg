CONSTANTS N = 6 Vals = {0, 1, 3}
INIT Init
NEXT Next
INVARIANTS NodesReproduced Smooth Line LineShift Mirror Local Scale
CHECK_DEADLOCK FALSE
