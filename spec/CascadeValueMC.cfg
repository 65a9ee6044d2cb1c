INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 3
INVARIANTS Equivalence Commutes MeanOfEqual DoubleIsSum Tells Emit
PROPERTIES OtherKept
