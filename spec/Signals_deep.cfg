SPECIFICATION Spec
CONSTANTS
  Sigs = {1, 2}
  MaxOps = 8
  Gen = FALSE
VIEW view
INVARIANT One
INVARIANT Closed
INVARIANT Noticed
INVARIANT Kept
INVARIANT Apart
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
