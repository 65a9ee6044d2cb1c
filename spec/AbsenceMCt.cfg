INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS N = 7
INVARIANTS Ends Ascending KnownListed FilledKnows Agree
PROPERTIES SameKnowledge
