SPECIFICATION Spec
CONSTANTS
  MaxWrite = 3
  MaxOps = 8
  Fails = TRUE
  Gen = FALSE
INVARIANT Ordered
INVARIANT Settled
INVARIANT OneWorker
INVARIANT Prefix
PROPERTY Stops
PROPERTY Arrives
CHECK_DEADLOCK FALSE
