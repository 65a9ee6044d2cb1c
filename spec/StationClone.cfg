CONSTANTS
 Alphabet = "clone"
 Depth = 1
 Start = "cloned"
INIT Init
NEXT Next
INVARIANTS Current Repeat Emit
PROPERTIES OwnColumn OwnStation ResultsKept StatsKept Rejected
CHECK_DEADLOCK FALSE
