SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  MaxLen = 3
  Gen = FALSE
ACTION_CONSTRAINT Emitted
INVARIANT Alone
INVARIANT Serial
CHECK_DEADLOCK FALSE
