SPECIFICATION Spec
CONSTANTS
  MaxEv = 2
  MaxOps = 2
  Gen = TRUE
ACTION_CONSTRAINT Emitted
INVARIANT Once
INVARIANT Agree
CHECK_DEADLOCK FALSE
