INIT Init
NEXT Next
CONSTANT Depth = 4
INVARIANT Agree
CHECK_DEADLOCK FALSE
