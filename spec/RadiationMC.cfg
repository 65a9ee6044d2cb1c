INIT Init
NEXT Next
CONSTANTS Pots = {0, 12345, 3000000, 7654321}
 Globs = {0, 150000, 2000000}
 Ranges = {0, 5000, 20000, 160000, 300000, 500000}
INVARIANTS MeanKept Dark NotNegative ShareBound ShareGrows CloudlessAngstroem
CHECK_DEADLOCK FALSE
