SPECIFICATION Spec
CONSTANTS
  Alphabet <- Keys
  MaxArg = 2
  Interactive = FALSE
  Gen = TRUE
VIEW View
CONSTRAINT Bounded
ACTION_CONSTRAINT Emitted
INVARIANT Rescan
CHECK_DEADLOCK FALSE
