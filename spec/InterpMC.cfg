CONSTANTS
 Days = 3
 MaxCols = 2
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
