SPECIFICATION Spec
CONSTANTS
  MaxWrite = 3
  MaxOps = 6
  Fails = TRUE
  Gen = TRUE
INVARIANT Ordered
INVARIANT Settled
VIEW View
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
