SPECIFICATION Spec
CONSTANTS
  MaxWrite = 5
  MaxOps = 12
  Fails = TRUE
  Gen = FALSE
INVARIANT Ordered
INVARIANT Settled
INVARIANT OneWorker
INVARIANT Prefix
PROPERTY Stops
PROPERTY Arrives
CHECK_DEADLOCK FALSE
