SPECIFICATION Spec
CONSTANTS
  W = 2
  H = 1
  Cells <- CellsSmall
  UCs <- UCsTiny
  Faults = TRUE
  Edits = 1
  Bce = FALSE
  MaxLen = 40
  Gen = FALSE
VIEW View

INVARIANT RealIsReal
PROPERTIES FlushedInSync ExitRestores
CHECK_DEADLOCK FALSE
