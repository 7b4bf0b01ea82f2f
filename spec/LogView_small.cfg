SPECIFICATION Spec
CONSTANTS
  MaxLines = 3
  MaxH = 4
  View = 2
  MaxOps = 5
  Gen = FALSE
VIEW view
INVARIANT Full
INVARIANT Fits
INVARIANT Follows
INVARIANT Still
INVARIANT Bottom

CHECK_DEADLOCK FALSE
