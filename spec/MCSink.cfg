INIT Init
NEXT Next
CONSTANTS
  Items <- TheItems
  BufSize = 3
  Limits <- AllLimits
INVARIANTS Safe Right
CHECK_DEADLOCK FALSE
