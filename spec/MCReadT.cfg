INIT Init
NEXT Next
CONSTANTS
  Lexemes <- More
  MaxLen = 5
INVARIANT Right
CHECK_DEADLOCK FALSE
