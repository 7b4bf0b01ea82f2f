SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxOps = 8
  Gen = FALSE
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANT Zipper
INVARIANT Visible
CHECK_DEADLOCK FALSE
