INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS N = 5
INVARIANTS Ends Ascending KnownListed FilledKnows Agree
PROPERTIES SameKnowledge
