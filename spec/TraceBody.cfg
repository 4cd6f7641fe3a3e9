CONSTANTS Km <- TKm
 Cm <- TCm
SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Accepted1
CHECK_DEADLOCK FALSE
VIEW View
