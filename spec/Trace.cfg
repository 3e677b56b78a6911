INIT TInit
NEXT TNext
INVARIANTS StackOk ConstraintsHold NothingHeld CollectionsOk Conserved PositionalsInOrder AfterEnd ErrOk
CHECK_DEADLOCK FALSE
