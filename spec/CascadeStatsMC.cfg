INIT Init
NEXT Next
CONSTANTS N = 7
 Values = {0, 1, 3, 4}
 Thr1000 = 3500
INVARIANTS Identities Agreement PercentileSane
CHECK_DEADLOCK FALSE
