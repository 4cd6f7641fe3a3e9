CONSTANT Ledger = FALSE
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted1
CHECK_DEADLOCK FALSE
