SPECIFICATION Spec
CONSTANTS MaxAddr = 34 Aligns = {1, 2, 4, 8} Sizes = {0, 1, 3} Hdr = 2 MaxLive = 2
INVARIANTS Aligned Contained Disjoint Exact NoLeak
CHECK_DEADLOCK FALSE
