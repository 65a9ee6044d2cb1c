INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS N = 8
INVARIANTS Inside Whole OwnDay
PROPERTIES Shrinks
