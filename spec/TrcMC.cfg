CONSTANTS
  Profile = "@PROFILE@"
  Depth = @DEPTH@
INIT MCInit
NEXT MCNext
INVARIANTS Retention OnlyDropped Complete ShowsAtMost Counted Sent Passing Handles Results Merged Logged Emit
PROPERTY Frozen
CHECK_DEADLOCK FALSE
