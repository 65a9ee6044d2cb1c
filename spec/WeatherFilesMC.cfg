CONSTANTS
 Years = {1900, 2000, 2012, 2015}
 Months = {1, 2, 3, 4, 11, 12}
 Dom = {1, 27, 28, 29, 30, 31}
INIT Init
NEXT Next
INVARIANT Valid
PROPERTY Steps
CHECK_DEADLOCK FALSE
