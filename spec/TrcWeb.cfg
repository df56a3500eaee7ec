INIT WInit
NEXT WNext
INVARIANT Agrees
CHECK_DEADLOCK FALSE
