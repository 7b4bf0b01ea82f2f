SPECIFICATION Spec
CONSTANTS
  MaxGen = 4
  Waiters = {1,2}
  Atomic = TRUE
INVARIANT Mine
PROPERTY Live
CHECK_DEADLOCK FALSE
