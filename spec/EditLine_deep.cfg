SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  MaxOps = 12
  Gen = FALSE
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANT Zipper
INVARIANT Visible
CHECK_DEADLOCK FALSE
