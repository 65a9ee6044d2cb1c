CONSTANTS
 Firsts = {0, 1, 7, 8, 12, 22, 23}
 Lengths = {0, 1, 2, 23, 24, 25, 31, 48, 50, 73}
 Shifts = {0, 1, 7, 8, 13, 22, 23}
 GapAts = {0, 1, 24, 30}
 GapLens = {0, 1, 5, 24}
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
