INIT Init
NEXT Next
CONSTANTS
  Texts <- MoreTexts
  Fresh <- MoreNodes
  MaxEdits = 2
INVARIANT Good
CHECK_DEADLOCK FALSE
