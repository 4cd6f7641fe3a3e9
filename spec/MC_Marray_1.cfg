SPECIFICATION Spec
CONSTANTS
  Rank = 1
  MaxExt = 5
  MaxLen = 5
INVARIANTS WellFormed RowMajor Undo GrowIsResize ShrinkIsResize Commute SumsAgree BroadcastOK
PROPERTY NothingInvented
CHECK_DEADLOCK FALSE
