INIT Init
NEXT Next
CONSTANTS ND = 4
 Lows = {2500000, 2530000, 2560000}
 Range = 60000
 MinLoc = 10
 MaxLoc = 14
INVARIANT Sound
CHECK_DEADLOCK FALSE
