SPECIFICATION Spec
CONSTANTS
  Alphabet <- Few
  MaxArg = 4
  Interactive = FALSE
  Gen = TRUE
VIEW View
CONSTRAINT Bounded
ACTION_CONSTRAINT Emitted
INVARIANT Rescan
CHECK_DEADLOCK FALSE
