CONSTANT Names = {"a", "b", "c", "d"}
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted1
CHECK_DEADLOCK FALSE
