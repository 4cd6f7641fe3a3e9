SPECIFICATION Spec
CONSTANTS
  Slots = {1,2}
  Allocs = {1,2}
  MaxN = 2
  MaxSerial = 4
  PCCA = TRUE
  PCMA = TRUE
  PCS = TRUE
INVARIANTS Ledger Strong SizesAgree Progress
CHECK_DEADLOCK FALSE
