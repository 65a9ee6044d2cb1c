INIT Init
NEXT Next
INVARIANTS MeanFactor NonNegative Bound
CHECK_DEADLOCK FALSE
