SPECIFICATION MCSpec
INVARIANT Goodness
PROPERTIES Refused Outdated Clock Faithful Moved
CHECK_DEADLOCK FALSE
CONSTANTS
 Unit <- McUnit
 MaxDim = 6
 Depth = 6
