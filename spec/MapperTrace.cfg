INIT Init
NEXT Next
INVARIANT Done
INVARIANT Sound
CHECK_DEADLOCK FALSE
