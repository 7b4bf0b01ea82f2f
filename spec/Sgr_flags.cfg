SPECIFICATION Spec
CONSTANTS
  Flags <- AllFlags
  Colors <- NoColors
  Gen = FALSE
INVARIANT Laws
CHECK_DEADLOCK FALSE
