CONSTANTS
  Profile = "@PROFILE@"
  Depth = @DEPTH@
INIT MwInit
NEXT MwNext
INVARIANTS Sizes Emit
PROPERTIES Decided Grows
CHECK_DEADLOCK FALSE
