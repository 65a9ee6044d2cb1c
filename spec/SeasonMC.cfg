INIT Init
NEXT Next
CONSTANTS Months = {1, 2, 3, 4}
 NDays = 6
 NSeasons = 2
INVARIANTS OwnStatistics NoSeasonNoValue Covered
CHECK_DEADLOCK FALSE
