SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 1
  Cells <- CellsSmall
  UCs <- UCsTiny
  Faults = TRUE
  Edits = 1
  Bce = FALSE
  MaxLen = 9
  Gen = TRUE
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANT RealIsReal
PROPERTY FlushedInSync
CHECK_DEADLOCK FALSE
