SPECIFICATION Spec
CONSTANTS
  Total = 4
  Cap = 2
  MayClose = FALSE
INVARIANT InOrder
INVARIANT Finished
PROPERTY Terminates
PROPERTY Delivered
CHECK_DEADLOCK FALSE
