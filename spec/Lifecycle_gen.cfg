SPECIFICATION Spec
CONSTANTS
  N = 2
  MaxFail = 2
  MaxCalls = 4
  MaxDepth = 4
  Gen = TRUE
ACTION_CONSTRAINT Emitted
INVARIANT Entered
INVARIANT Restored
INVARIANT Closed
CHECK_DEADLOCK FALSE
