SPECIFICATION Spec
CONSTANTS
  MaxOps = 9
  MaxDepth = 3
  MaxFail = 1
  SharedFile = TRUE
  Gen = FALSE
INVARIANT Outside
INVARIANT Inside
INVARIANT Out
INVARIANT AllDone
CHECK_DEADLOCK FALSE
VIEW View
