INIT Init
NEXT Next
VIEW View
INVARIANT Done Held1
CHECK_DEADLOCK FALSE
