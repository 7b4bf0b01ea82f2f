SPECIFICATION Spec
CONSTANTS
  MaxGen = 2
  Waiters = {1}
  Atomic = TRUE
INVARIANT Mine
PROPERTY Live
CHECK_DEADLOCK FALSE
