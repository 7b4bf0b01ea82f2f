SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  MaxDepth = 2
  MaxFail = 1
  SharedFile = FALSE
  Gen = TRUE
INVARIANT Outside
INVARIANT Inside
INVARIANT Out
INVARIANT AllDone
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emitted
