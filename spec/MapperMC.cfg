INIT Init
NEXT Next
INVARIANT Inv
CONSTRAINT Bound
VIEW View
CHECK_DEADLOCK FALSE
