SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxFail = 4
  MaxCalls = 8
  MaxDepth = 6
  Gen = FALSE
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANT Entered
INVARIANT Restored
INVARIANT Closed
CHECK_DEADLOCK FALSE
