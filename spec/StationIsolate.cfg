CONSTANTS
 Alphabet = "isolate"
 Depth = 14
 Start = "ready"
INIT Init
NEXT Next
INVARIANTS Current Repeat Emit
PROPERTIES OwnColumn OwnStation ResultsKept StatsKept Rejected
CHECK_DEADLOCK FALSE
