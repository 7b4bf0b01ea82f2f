SPECIFICATION Spec
CONSTANTS
  Total = 8
  Cap = 3
  MayClose = FALSE
INVARIANT InOrder
INVARIANT Finished
PROPERTY Terminates
PROPERTY Delivered
CHECK_DEADLOCK FALSE
