SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  Gen = FALSE
VIEW View
INVARIANT True1
CHECK_DEADLOCK FALSE
