CONSTANTS
 NDays = 2
 Vals = {0, 300, 1000}
INIT Init
NEXT Next
INVARIANTS Agree Scaled
CHECK_DEADLOCK FALSE
