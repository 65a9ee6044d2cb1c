CONSTANTS
 Alphabet = "jsonlong"
 Depth = 12
 Start = "ready"
INIT Init
NEXT Next
INVARIANTS Current Repeat Emit
PROPERTIES OwnColumn OwnStation ResultsKept StatsKept Rejected
CHECK_DEADLOCK FALSE
