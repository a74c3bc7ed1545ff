INIT Init
NEXT Next
CONSTANT Depth = 2
INVARIANT Agree
CHECK_DEADLOCK FALSE
