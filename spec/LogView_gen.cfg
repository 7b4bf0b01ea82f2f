SPECIFICATION Spec
CONSTANTS
  MaxLines = 3
  MaxH = 3
  View = 2
  MaxOps = 4
  Gen = TRUE
VIEW view
INVARIANT Full
INVARIANT Fits
INVARIANT Follows
INVARIANT Still
INVARIANT Bottom
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE
