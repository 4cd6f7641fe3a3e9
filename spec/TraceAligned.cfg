SPECIFICATION Spec
CONSTRAINT Track
VIEW View
POSTCONDITION Accepted1
CHECK_DEADLOCK FALSE
