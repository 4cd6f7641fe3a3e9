SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted1
CHECK_DEADLOCK FALSE
CONSTANTS
 Unit <- TraceUnit
 MaxDim = 6
