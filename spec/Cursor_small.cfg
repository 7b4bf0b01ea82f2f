SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Gen = FALSE
VIEW View
INVARIANT True1
CHECK_DEADLOCK FALSE
