INIT Init
NEXT Stop
CONSTANTS Lows = {2700000, 2760000}
 Highs = {2800000, 2850000}
 MinLocs = {4, 7, 9}
 MaxLocs = {13, 14, 16}
CHECK_DEADLOCK FALSE
