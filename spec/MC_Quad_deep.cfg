CONSTANT Big = TRUE
SPECIFICATION Spec
PROPERTY Terminates
INVARIANTS Tiled Consistent ExactPoly Smooth Honest Jump Walk
CHECK_DEADLOCK FALSE
