INIT Init
NEXT Next
CONSTANTS N = 4
 K = 2
INVARIANTS Local Complete WholeDay
PROPERTY Monotone
CHECK_DEADLOCK FALSE
