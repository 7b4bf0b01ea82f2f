SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  MaxOps = 5
  Gen = TRUE
ACTION_CONSTRAINT Emitted
INVARIANT Zipper
INVARIANT Visible
CHECK_DEADLOCK FALSE
