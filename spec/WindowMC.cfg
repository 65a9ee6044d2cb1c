INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS N = 5
INVARIANTS Inside Whole OwnDay
PROPERTIES Shrinks
