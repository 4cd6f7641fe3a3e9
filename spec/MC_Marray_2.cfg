SPECIFICATION Spec
CONSTANTS
  Rank = 2
  MaxExt = 3
  MaxLen = 4
INVARIANTS WellFormed RowMajor Undo GrowIsResize ShrinkIsResize Commute SumsAgree BroadcastOK
PROPERTY NothingInvented
CHECK_DEADLOCK FALSE
