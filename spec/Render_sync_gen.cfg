SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 2
  Cells <- CellsBg
  UCs <- UCsTiny
  Faults = FALSE
  Edits = 1
  Bce = TRUE
  MaxLen = 40
  Gen = TRUE
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANT RealIsReal
PROPERTY FlushedInSync
CHECK_DEADLOCK FALSE
