SPECIFICATION Spec
CONSTANTS
  MaxArgs = 2
  Deep = TRUE
INVARIANTS OnlyAsked WroteExactly Complete Cause Channels Stable
PROPERTY Ends
CHECK_DEADLOCK FALSE
