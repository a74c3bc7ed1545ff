SPECIFICATION Spec
CONSTANTS
  MaxArgs = 1
  Deep = FALSE
INVARIANTS OnlyAsked WroteExactly Complete Cause Channels Stable
PROPERTY Ends
CHECK_DEADLOCK FALSE
