INIT Init
NEXT Next
CONSTANTS Lo = 2231500
 Hi = 3131500
 StepK = 50000
 Readings = {0, 400000, 990000}
 Means = {0, 500000, 1000000}
INVARIANTS InRange Saturated BelowSat MeanKept SameShape Untouched
PROPERTY Monotone
CHECK_DEADLOCK FALSE
