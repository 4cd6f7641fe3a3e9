SPECIFICATION MCSpec
INVARIANT Laws
CHECK_DEADLOCK FALSE
CONSTANTS
 Unit <- McUnit
 MaxDim = 6
