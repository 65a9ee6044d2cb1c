INIT Init
NEXT Next
CONSTANT DayStep = 3
INVARIANTS Positive Clouds BelowSolarConstant Night Symmetric SolarTime Declination EqOfTime OneCase Hemispheres Solvable
CHECK_DEADLOCK FALSE
