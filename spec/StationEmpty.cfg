CONSTANTS
 Alphabet = "core"
 Depth = 2
 Start = "empty"
INIT Init
NEXT Next
INVARIANTS Current Repeat Emit
PROPERTIES OwnColumn OwnStation ResultsKept StatsKept Rejected
CHECK_DEADLOCK FALSE
