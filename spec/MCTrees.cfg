INIT Init
NEXT Next
CONSTANTS
  Texts <- SomeTexts
  Fresh <- SomeNodes
  MaxEdits = 1
INVARIANT Good
CHECK_DEADLOCK FALSE
