SPECIFICATION Spec
CONSTANTS
  Flags <- ManyFlags
  Colors <- SomeColors
  Gen = FALSE
INVARIANT Laws
CHECK_DEADLOCK FALSE
