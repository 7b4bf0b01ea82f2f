SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 2
  Cells <- CellsBg
  UCs <- UCsSmall
  Faults = FALSE
  Edits = 2
  Bce = TRUE
  MaxLen = 40
  Gen = FALSE
VIEW View
INVARIANT RealIsReal
PROPERTY FlushedInSync
CHECK_DEADLOCK FALSE
