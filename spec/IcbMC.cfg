INIT Init
NEXT Next
VIEW View
INVARIANT Holds
CHECK_DEADLOCK FALSE
