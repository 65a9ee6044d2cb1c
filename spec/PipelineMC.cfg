INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  H = 3
  Weights = {0, 1, 2}
  Vals = {0, 1, 2}
INVARIANTS MeanKept ExtremesKept RangeKept Settled
