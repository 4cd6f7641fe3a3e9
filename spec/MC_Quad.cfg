CONSTANT Big = FALSE
SPECIFICATION Spec
INVARIANTS Tiled Consistent ExactPoly Smooth Honest Jump Walk
CHECK_DEADLOCK FALSE
