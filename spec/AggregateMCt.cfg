CONSTANTS
 Firsts = {0, 1, 2, 3, 5, 7, 8, 11, 12, 18, 22, 23}
 Lengths = {0, 1, 2, 3, 12, 23, 24, 25, 31, 47, 48, 49, 50, 73}
 Shifts = {0, 1, 2, 5, 6, 7, 8, 12, 13, 20, 22, 23}
 GapAts = {0, 1, 2, 11, 24, 30, 47}
 GapLens = {0, 1, 5, 23, 24, 25}
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
