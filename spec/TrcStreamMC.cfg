CONSTANTS
  Profile = "@PROFILE@"
  Depth = @DEPTH@
INIT SMInit
NEXT SMNext
INVARIANTS OneEach Waits Once Cancelled Offered Emit
PROPERTIES Ends Prompt
CHECK_DEADLOCK FALSE
