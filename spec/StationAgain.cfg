CONSTANTS
 Alphabet = "again"
 Depth = 2
 Start = "calibrated"
INIT Init
NEXT Next
INVARIANTS Current Repeat Emit
PROPERTIES OwnColumn OwnStation ResultsKept StatsKept Rejected
CHECK_DEADLOCK FALSE
