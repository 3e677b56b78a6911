SPECIFICATION ESpec
INVARIANT EInv
CHECK_DEADLOCK FALSE
