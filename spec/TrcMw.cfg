INIT MInit
NEXT MNext
INVARIANT Agrees
CHECK_DEADLOCK FALSE
