INIT Init
NEXT Next
INVARIANT Keeps
CONSTRAINT Limit
VIEW View
CHECK_DEADLOCK FALSE
