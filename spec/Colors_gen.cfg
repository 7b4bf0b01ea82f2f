SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  MaxLen = 2
  Gen = TRUE
ACTION_CONSTRAINT Emitted
INVARIANT Alone
INVARIANT Serial
CHECK_DEADLOCK FALSE
