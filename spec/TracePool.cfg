SPECIFICATION TSpec
CONSTANTS
  Tasks = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16}
  Threads = {0,1,2,3,4,5,6,7,8,9,10,11,12}
  MaxSize = 6
  NoThread = 999
CONSTRAINT Track
INVARIANT Props
POSTCONDITION Accepted1
CHECK_DEADLOCK FALSE
