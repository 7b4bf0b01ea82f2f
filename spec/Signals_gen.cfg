SPECIFICATION Spec
CONSTANTS
  Sigs = {1, 2}
  MaxOps = 4
  Gen = TRUE
VIEW view
INVARIANT One
INVARIANT Closed
INVARIANT Noticed
INVARIANT Kept
INVARIANT Apart
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
