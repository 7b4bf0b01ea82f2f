SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  MaxDepth = 4
  MaxFail = 2
  SharedFile = TRUE
  Gen = FALSE
INVARIANT Outside
INVARIANT Inside
INVARIANT Out
INVARIANT AllDone
CHECK_DEADLOCK FALSE
VIEW View
