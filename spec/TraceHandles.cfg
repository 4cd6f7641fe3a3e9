CONSTANTS Slots = {1, 2, 3, 4}
 Ids <- AllIds
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted1
CHECK_DEADLOCK FALSE
