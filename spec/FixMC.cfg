INIT Init
NEXT Next
INVARIANTS ExpLn ExpAdd Pyth Odd Turn RootSq Big
CHECK_DEADLOCK FALSE
