SPECIFICATION Spec
CONSTANTS
  Total = 4
  Cap = 2
  MayClose = TRUE
INVARIANT InOrder
INVARIANT Finished
PROPERTY Terminates
PROPERTY Delivered
CHECK_DEADLOCK FALSE
