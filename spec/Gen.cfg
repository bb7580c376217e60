INIT Init
NEXT Next
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
