INIT Init
NEXT Next
CONSTANTS
  Lexemes <- Some
  MaxLen = 5
INVARIANT Right
CHECK_DEADLOCK FALSE
