SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxLen = 2
  Gen = TRUE
ACTION_CONSTRAINT Emitted
INVARIANT Alone
INVARIANT Serial
CHECK_DEADLOCK FALSE
