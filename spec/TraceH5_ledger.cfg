CONSTANT Ledger = TRUE
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted1
CHECK_DEADLOCK FALSE
