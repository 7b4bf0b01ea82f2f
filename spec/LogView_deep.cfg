SPECIFICATION Spec
CONSTANTS
  MaxLines = 5
  MaxH = 6
  View = 3
  MaxOps = 7
  Gen = FALSE
VIEW view
INVARIANT Full
INVARIANT Fits
INVARIANT Follows
INVARIANT Still
INVARIANT Bottom

CHECK_DEADLOCK FALSE
