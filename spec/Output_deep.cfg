SPECIFICATION Spec
CONSTANTS
  Total = 9
  Cap = 3
  MayClose = TRUE
INVARIANT InOrder
INVARIANT Finished
PROPERTY Terminates
PROPERTY Delivered
CHECK_DEADLOCK FALSE
