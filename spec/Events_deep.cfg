SPECIFICATION Spec
CONSTANTS
  MaxEv = 4
  MaxOps = 3
  Gen = FALSE
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANT Once
INVARIANT Agree
CHECK_DEADLOCK FALSE
