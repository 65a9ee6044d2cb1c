INIT Init
NEXT Next
CONSTANT DayStep = 14
INVARIANTS Positive Clouds BelowSolarConstant Night Symmetric SolarTime Declination EqOfTime OneCase Hemispheres Solvable
CHECK_DEADLOCK FALSE
