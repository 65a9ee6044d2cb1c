CONSTANTS
 NDays = 3
 Vals = {300, 1000}
INIT Init
NEXT Next
INVARIANTS Agree Scaled
CHECK_DEADLOCK FALSE
