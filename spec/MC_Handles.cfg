CONSTANTS Slots = {1, 2, 3}
 Ids = {1, 2, 3, 4}
SPECIFICATION Spec
INVARIANT ExactlyOnce
CHECK_DEADLOCK FALSE
