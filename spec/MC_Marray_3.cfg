SPECIFICATION Spec
CONSTANTS
  Rank = 3
  MaxExt = 2
  MaxLen = 4
INVARIANTS WellFormed RowMajor Undo GrowIsResize ShrinkIsResize Commute SumsAgree BroadcastOK
PROPERTY NothingInvented
CHECK_DEADLOCK FALSE
