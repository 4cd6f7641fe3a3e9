SPECIFICATION Spec
CONSTANTS
  Slots = {1,2}
  Allocs = {1,2}
  MaxN = 2
  MaxSerial = 4
  PCCA = FALSE
  PCMA = FALSE
  PCS = FALSE
INVARIANTS Ledger Strong SizesAgree Progress
CHECK_DEADLOCK FALSE
