SPECIFICATION Spec
CONSTANTS
  MaxEv = 3
  MaxOps = 2
  Gen = FALSE
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANT Once
INVARIANT Agree
CHECK_DEADLOCK FALSE
